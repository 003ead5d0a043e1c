HOOKS = {"guard": "cargo feature verif_hooks of the crate ringrtc",
         "enable": "the core crate depends on ringrtc with the feature verif_hooks (core/Cargo.toml)",
         "source_commits": ["dad7e52", "80ca6a3", "512b20e", "a8c0492"]}
NOT_APPLICABLE = []
PROPS = []
def P(**k):
    PROPS.append(k)

P(id="C01", title="Reliable messaging delivers every message once, in order, over a lossy link",
  statement="Two peers that exchange messages over a link that loses, duplicates, delays and reorders packets each receive exactly the messages the other handed over for sending, each once, in order and byte for byte, as long as retransmission eventually gets a copy through. A sender holds back rather than exceed its window, and says so, and its window reopens as acknowledgements arrive. Fragments of a large message are merged back into precisely the original message.",
  over=["schedules", "fault_sequences", "inputs"],
  forall="every interleaving of sends (plain and fragmented), losses, duplications, reorderings, very late duplicates, acks and clock advances at both peers, for every window size",
  why="The unit tests play a handful of scripted exchanges; reliability is a statement about all schedules of faults.",
  files=["mrp/src/stream.rs", "mrp/src/window.rs", "mrp/src/merge.rs"],
  mech=[("send window and retransmission", "mrp/src/stream.rs MrpStream::try_send*, try_resend, receive_and_merge"),
        ("out-of-order buffer", "mrp/src/window.rs BufferWindow"),
        ("fragment merge", "mrp/src/merge.rs")],
  technique="stateful property-based testing: two real endpoints over a generated faulty link, checked against a reference delivery model",
  note="Thousands of generated fault schedules per run with shrinking; assumes the embedding sends acks and calls resend as group calls do.")

P(id="C02", title="Reliable messaging survives arbitrary incoming headers",
  statement="Whatever sequence and acknowledgement numbers a peer puts in its packets, the receiving endpoint neither crashes nor delivers a message out of order, twice, or that was never sent under that number. What it holds for later is bounded by its window. Headers outside the window are refused or ignored and leave later well-formed traffic working.",
  over=["inputs", "histories"],
  forall="every history of packets with arbitrary 64-bit sequence numbers, acks and fragment counts, interleaved with genuine traffic",
  why="Tests only feed well-formed headers; the peer is the network.",
  files=["mrp/src/stream.rs", "mrp/src/window.rs"],
  mech=[("header handling", "mrp/src/stream.rs receive/receive_and_merge"), ("window bounds", "mrp/src/window.rs")],
  technique="property-based fuzzing of packet headers against a reference receiver model",
  note="Random and boundary-biased headers; crash, order, duplication and buffering bounds are checked on every step.")

P(id="C03", title="Media frames decrypt exactly for holders of the key and only unmodified",
  statement="A frame encrypted by a sender decrypts to precisely the original bytes at every receiver that was given that sender's current key at or before that frame, whatever order the frames arrive in, however the keys advanced meanwhile. A frame with any bit of its ciphertext, counter or authentication tag changed, or taken from another sender, is refused, and refusing it leaves the receiver able to decrypt genuine frames. A receiver given only a later key can never decrypt an earlier key's frames.",
  over=["inputs", "histories", "fault_sequences"],
  forall="every history of encryptions, ratchet advances, key hand-overs to early and late joiners, in- and out-of-order deliveries and forgeries",
  why="The unit tests encrypt and decrypt a few fixed frames; the guarantee is over every delivery order and forgery.",
  files=["src/rust/src/core/crypto.rs"],
  mech=[("frame encryption", "src/rust/src/core/crypto.rs Context::encrypt/decrypt"), ("ratchet", "SenderState/ReceiverState ratchet")],
  technique="model-based property testing with an independent reimplementation of the frame cipher and generated forgeries",
  note="Every operation of a generated history is compared with an independent cipher built from the key schedule in the code's documentation.")

P(id="C04", title="Late frames and key changes never cost a receiver later frames",
  statement="Over an arbitrarily long call, a receiver keeps decrypting every genuine frame although frames sent before a key advance arrive after it, and although the sender replaces its key altogether. After a key replacement a bounded number of recent keys of that sender remain usable for frames still in flight, and no others do. Frame counters never repeat under one key.",
  over=["histories", "schedules"],
  forall="every long history of ratchet advances, key replacements and delayed frames",
  why="Tests never deliver a frame across a key change and then continue; the failures only show several steps later.",
  files=["src/rust/src/core/crypto.rs"],
  mech=[("receiver state history", "src/rust/src/core/crypto.rs ReceiverState, MAX_RECEIVER_STATES handling")],
  technique="stateful property-based testing against an independent cipher model",
  note="Found and repaired a genuine defect (late frames of an older ratchet rolled the receiver back).")

P(id="C05", title="Call link keys, strings and names round-trip; malformed ones are refused",
  statement="Printing and parsing a call link's root key or epoch gives back the same value, and parsing accepts exactly the printed form: every other text is refused. The room identifier and key material derived from a root key depend on it alone. A call name encrypted under a root key decrypts to itself under that key, is refused under any other key or when altered, and generated root keys are always well-formed.",
  over=["inputs"],
  forall="every 16-byte key and 4-byte epoch, every text near a valid one, every name, every random stream used for generation",
  why="Tests round-trip a few constants; acceptance of malformed text is about all other strings.",
  files=["src/rust/src/lite/call_links/root_key.rs", "src/rust/src/lite/call_links/base16.rs"],
  mech=[("text form", "src/rust/src/lite/call_links/base16.rs"), ("keys", "src/rust/src/lite/call_links/root_key.rs")],
  technique="round-trip, mutation-based rejection and differential property testing",
  note="Found and repaired a genuine defect (trailing garbage after a complete key was accepted).")

P(id="C06", title="Call link requests and answers are faithful, whatever the server says",
  statement="Every call link operation sends one request whose method, address, authorisation and body say exactly what the caller asked for, with names encrypted and secrets never in clear. The caller is told exactly once, with the link state the server's answer describes, or with the failure status when it does not describe one. No server answer can crash the client, and member identities map back to exactly the members that were supplied.",
  over=["inputs", "fault_sequences"],
  forall="every operation and argument, every HTTP status and well-formed, damaged or hostile answer body, every set of members and lookup order",
  why="No test drives these requests at all; hostile answers are unbounded.",
  files=["src/rust/src/lite/call_links.rs", "src/rust/src/lite/call_links/member_resolver.rs"],
  mech=[("requests", "src/rust/src/lite/call_links.rs CallLinkRestClient"), ("member mapping", "src/rust/src/lite/call_links/member_resolver.rs")],
  technique="property-based testing against an independent model of the wire protocol, with a scripted fake server",
  note="Found and repaired a genuine defect (an unrepresentable expiration crashed the client). zkgroup is replaced by a stand-in, so the credential cryptography itself is not covered.")

P(id="C07", title="Peeks and joins report what the server said, once, and hide nothing",
  statement="A peek or join request says exactly what the caller asked for and carries its authorisation. The caller is answered exactly once with the server's call, every listed participant mapped to the member it stands for or marked unknown, the devices not yet admitted kept apart and each user counted once, or with the failure the answer stands for. No server answer crashes the client.",
  over=["inputs"],
  forall="every combination of request parameters, member list, well-formed, malformed and failing server answers",
  why="Tests decode two or three fixed bodies; the server's answers range over far more.",
  files=["src/rust/src/lite/sfu.rs", "src/rust/src/lite/http.rs"],
  mech=[("peek", "src/rust/src/lite/sfu.rs peek, PeekInfo::deobfuscate_proto"), ("join", "src/rust/src/lite/sfu.rs join"), ("authorisation", "src/rust/src/lite/sfu.rs auth_header_from_membership_proof")],
  technique="property-based testing through a recording HTTP stand-in against an independent reading of the answers",
  note="Generated answers, including hostile ones, are read independently and compared field by field.")

P(id="C08", title="Each outstanding request gets its own answer exactly once",
  statement="However many requests are outstanding, in whatever order and however late or often their answers arrive, each request's callback runs at most once and only with the answer to that request; answers to unknown requests are ignored. A response counts as success precisely when its status is in the 200s.",
  over=["schedules", "histories", "inputs"],
  forall="every interleaving of requests with late, duplicated, unknown and reordered answers; every 16-bit status",
  why="Request multiplexing errors only show under particular interleavings.",
  files=["src/rust/src/lite/http.rs"],
  mech=[("request multiplexing", "src/rust/src/lite/http.rs DelegatingClient"), ("status classes", "ResponseStatus")],
  technique="model-based testing of request/answer interleavings",
  note="A reference table of outstanding requests judges every callback.")

P(id="C09", title="Group endorsements are kept until they expire and given out for members only",
  statement="An endorsement update is believed only if the server's proof covers it, and then each current member's endorsement can be had, and nobody else's. Expired endorsements are never given out, the latest expiring one is preferred, and the store neither grows beyond what is live nor loses live entries when old ones are dropped.",
  over=["histories", "inputs"],
  forall="every history of updates, expirations, lookups and membership changes, including forged and truncated updates",
  why="Expiry and overlap of several generations of endorsements arise only in histories.",
  files=["src/rust/src/core/endorsements.rs"],
  mech=[("cache", "src/rust/src/core/endorsements.rs EndorsementsCache"), ("verification", "EndorsementUpdateResponse handling")],
  technique="model-based testing over histories with an injected clock",
  note="A reference store judges every lookup after every step.")

P(id="C10", title="Registered assets are offered by group and version as registered",
  statement="An asset registered for a group is offered by exactly the lookups that ask for it: the versions registered for that group, within the bound asked for, best first, with the content registered last for that version. Versions order numerically part by part and print back as they were read.",
  over=["histories", "inputs"],
  forall="every history of registrations and lookups, every version text",
  why="Tests register a handful of versions; ordering and replacement are about all of them.",
  files=["src/rust/src/core/assets.rs", "src/rust/src/common/versioning.rs"],
  mech=[("registry", "src/rust/src/core/assets.rs"), ("version order", "src/rust/src/common/versioning.rs SemanticVersion")],
  technique="model-based testing of the registry and algebraic properties of versions",
  note="One known finding is recorded (order of offered versions).")

P(id="C11", title="Background workers run each task once, in order, and stop when told",
  statement="Work handed to a background worker runs exactly once, in the order handed over, with delayed work no earlier than its time; stopping ends it without running anything after, and work handed over by work itself is not lost. A stream of events delivers everything sent, in order, once.",
  over=["schedules"],
  forall="every interleaving of immediate, delayed and nested submissions, stops and handle drops from several threads",
  why="Scheduling errors show only in particular interleavings.",
  files=["src/rust/src/common/actor.rs"],
  mech=[("worker", "src/rust/src/common/actor.rs Actor/Stopper")],
  technique="randomised schedule testing against a reference ordering",
  note="Random programs run on real threads; observed order is compared with the reference.")

P(id="C12", title="Logs never show addresses, credentials or other sensitive parts",
  statement="Text meant for logs has every IP address, ICE user fragment and password, and key or fingerprint removed, in whatever surrounding text they appear, while the other lines remain. Redacting twice changes nothing more.",
  over=["inputs"],
  forall="every description and candidate line assembled from sensitive and harmless parts",
  why="Tests redact a few sample descriptions.",
  files=["src/rust/src/core/util.rs", "src/rust/src/core/signaling.rs"],
  mech=[("redaction", "src/rust/src/core/util.rs redact_string"), ("information for logs", "src/rust/src/core/signaling.rs to_info_string, to_redacted_string")],
  technique="property-based testing with planted secrets and an independent search for them",
  note="Secrets are planted in generated text and searched for afterwards.")

P(id="N01", title="A call's media description says exactly what was negotiated",
  statement="A session description made from negotiated call parameters carries exactly their credentials, the supported codecs in order of preference, codecs for one direction only when both sides name them, and the encryption key set on it; parameters that cannot be expressed are refused. Read back, it gives the parameters it was made from, with the public key, bitrate limit and codecs of this call. A group call's description carries its key and names each participant once, in order; creating or setting a description succeeds or fails exactly as the engine says, and a created description is handed out once.",
  over=["inputs", "fault_sequences"],
  forall="every set of negotiated parameters, key, list of participants and call configuration, every sequence of create, key, set and drop with engine failures",
  why="There is no test of these conversions at all: they need the native media engine.",
  files=["src/rust/src/webrtc/peer_connection.rs", "src/rust/src/webrtc/sdp_observer.rs", "src/rust/src/webrtc/ffi/sdp_observer.rs"],
  mech=[("descriptions", "src/rust/src/webrtc/sdp_observer.rs SessionDescription"), ("create and set observers", "src/rust/src/webrtc/sdp_observer.rs CreateSessionDescriptionObserver, SetSessionDescriptionObserver")],
  technique="round-trip and model-based property testing against a recording stand-in for the media engine",
  note="The media engine is a C ABI stand-in which records what it is handed; the engine's own SDP text is out of reach.")

P(id="N02", title="What the app asks of the media engine reaches it unaltered",
  statement="Every request made through the media wrappers (creating factories, connections, tracks, sources and frames; rates, bitrates, ICE servers and candidates, media on and off, statistics, injected packets) arrives at the engine with exactly the values given, including when the given object is a copy whose original is gone. The engine's answers and failures come back as they are: no failure turns into success. Engine log lines arrive at the app's log with their level, and the level asked for is the one set.",
  over=["inputs", "fault_sequences"],
  forall="every argument and every choice of engine failures, in sequences of requests on one connection",
  why="The wrappers are only compiled against the real engine; no test drives them.",
  files=["src/rust/src/webrtc/peer_connection.rs", "src/rust/src/webrtc/peer_connection_factory.rs", "src/rust/src/webrtc/media.rs", "src/rust/src/webrtc/injectable_network.rs", "src/rust/src/webrtc/logging.rs", "src/rust/src/webrtc/network.rs"],
  mech=[("connection calls", "src/rust/src/webrtc/peer_connection.rs PeerConnection"), ("factory", "src/rust/src/webrtc/peer_connection_factory.rs"), ("media", "src/rust/src/webrtc/media.rs"), ("injected network", "src/rust/src/webrtc/injectable_network.rs")],
  technique="stateful property testing against a recording stand-in for the media engine with fault injection",
  note="Found and repaired a genuine defect (a cloned ICE server's URLs dangled).")

P(id="N03", title="What the media engine reports reaches the app unaltered",
  statement="Every event the engine raises for a connection (candidates gathered and removed, state and route changes, media added, video frames, frame encryption requests, RTP data) reaches the connection's handler once, in order, with exactly the reported values, and events switched off or without content are left out. Encryption and decryption report failure for failing handlers and missing buffers and never write outside the buffer offered. Received frames are shown upright with their true dimensions.",
  over=["inputs", "histories"],
  forall="every sequence of engine events, argument values, missing pointers and failing handlers",
  why="Engine callbacks are never exercised by a test.",
  files=["src/rust/src/webrtc/peer_connection_observer.rs", "src/rust/src/webrtc/media.rs", "src/rust/src/webrtc/rtp_observer.rs", "src/rust/src/webrtc/rtp.rs", "src/rust/src/webrtc/network.rs"],
  mech=[("observer", "src/rust/src/webrtc/peer_connection_observer.rs"), ("frames", "src/rust/src/webrtc/media.rs VideoFrame"), ("RTP", "src/rust/src/webrtc/rtp_observer.rs")],
  technique="stateful property testing by raising events from a stand-in for the media engine",
  note="Every callback the wrapper registers is driven, including null and failure cases.")

P(id="N04", title="Media objects live exactly as long as they are needed",
  statement="Whatever the order in which factories, connections, tracks, sources, frames, gatherers and observers are made, copied, shared, passed on and dropped, and whichever steps fail, every engine object is used only while held, released exactly once when its last holder is gone, and never leaked. A connection is gone before the observer it reports to, and everything made by a factory is gone before the factory.",
  over=["histories", "fault_sequences"],
  forall="every history of creation, copying, sharing, failure and dropping over several factories and connections",
  why="Use after release depends on the order of drops over a whole history; no test has an engine to notice it.",
  files=["src/rust/src/webrtc/arc.rs", "src/rust/src/webrtc/ptr.rs", "src/rust/src/webrtc/ffi/ref_count.rs", "src/rust/src/webrtc/peer_connection.rs", "src/rust/src/webrtc/peer_connection_factory.rs", "src/rust/src/webrtc/media.rs"],
  mech=[("reference counting", "src/rust/src/webrtc/arc.rs Arc, ptr.rs"), ("drop order", "src/rust/src/webrtc/peer_connection.rs, media.rs")],
  technique="stateful property testing with a reference-counting stand-in engine that audits every use and release",
  note="Found and repaired a genuine defect (an outgoing video track was released before the connection was created).")

P(id="N05", title="Audio goes through the devices the user chose, and failures are told",
  statement="The devices listed, and the device selected by position, default role or identity, are those the system reports, each once and under its own name and identity, whatever comes and goes or fails meanwhile. Recording and playing use the device selected at that moment, on one stream each way which is started, stopped and replaced as asked, falling back to working settings where the backend allows; nothing stays open afterwards. Every question the engine asks is answered truthfully: no failure of the audio system is reported as success, and no name, however long, crashes it.",
  over=["histories", "fault_sequences", "configurations"],
  forall="every history of device changes, selections, starts, stops and queries with every choice of backend failures, over all device names and roles",
  why="Tests of this module cannot run without a sound system and cover only a helper.",
  files=["src/rust/src/webrtc/audio_device_module.rs", "src/rust/src/webrtc/audio_device_module_utils.rs", "src/rust/src/webrtc/ffi/audio_device_module.rs", "src/rust/src/webrtc/peer_connection_factory.rs"],
  mech=[("module", "src/rust/src/webrtc/audio_device_module.rs AudioDeviceModule"), ("device lists", "src/rust/src/webrtc/audio_device_module_utils.rs DeviceCollectionWrapper, copy_and_truncate_string"), ("selection by the app", "src/rust/src/webrtc/peer_connection_factory.rs get_audio_*_devices, set_audio_*_device")],
  technique="stateful model-based property testing against a scripted audio backend with fault injection",
  note="The audio backend's C interface is replaced by a scripted one; found and repaired three genuine defects.")

P(id="N06", title="Captured and played sound arrives complete, in order, in 10 ms blocks",
  statement="Whatever the sizes in which the audio system hands over or asks for sound, the engine is given every captured sample and the system every sample the engine produced, once and in order, in whole 10 ms blocks, with the remainder carried over to the next time. While the microphone is only warming up, nothing captured reaches the engine. An error of the engine is passed on to the audio system, and the system is told exactly how much was taken or supplied.",
  over=["inputs", "histories"],
  forall="every sequence of block sizes, channel counts, starts, stops and engine answers",
  why="Sample loss depends on the history of odd block sizes; no test runs a stream.",
  files=["src/rust/src/webrtc/audio_device_module.rs"],
  mech=[("streams", "src/rust/src/webrtc/audio_device_module.rs Worker recording and playout callbacks")],
  technique="stateful property testing with numbered samples through a scripted audio backend",
  note="Every sample carries its number, so loss, repetition and reordering are all visible.")

P(id="N09", title="Logs never identify the user's audio devices",
  statement="A log line of the audio system that names a device shows of any device name or identity at most its first four letters (one, if it is not plain ASCII), wherever it stands in the line and whatever it contains, while the rest of the line stays; lines that do not say where they come from, or hold names in unknown places, are left out. The same holds for the app's own lines about devices.",
  over=["inputs"],
  forall="every log line assembled from device descriptions with arbitrary names and surrounding text, and every history of device selections",
  why="Tests redact a few sample lines.",
  files=["src/rust/src/webrtc/audio_device_module_utils.rs", "src/rust/src/webrtc/audio_device_module.rs"],
  mech=[("redaction", "src/rust/src/webrtc/audio_device_module_utils.rs redact_for_logging, redact_by_regex")],
  technique="property-based testing with planted device names and an independent search for them",
  note="Found and repaired a genuine defect (a name contained in other text was replaced in the wrong place).")
P(id="C13", title="Call signaling means the same to every client",
  statement="Offers, answers, ICE candidates and hangups made here are the bytes that every other client reads as what was meant, and read back unchanged: connection parameters with keys, ICE credentials, codecs and rates, candidates as text, and removed candidates by their IPv4 or IPv6 address and port. What other versions send is read by what is known in it: unknown fields and versions are skipped, received bytes are passed on as they were, an address of impossible length or port is no address, and damaged offers, answers and candidates are refused as a whole. Hangups keep their type and the device they name, and unknown types are refused.",
  over=["inputs"],
  forall="every text, address, set of connection parameters, order and repetition of fields, unknown field of every wire type, and truncation",
  why="Tests encode a few messages with the code that decodes them; compatibility with other versions is about bytes this code has never made.",
  files=["src/rust/src/core/signaling.rs", "protobuf/protobuf/signaling.proto"],
  mech=[("messages", "src/rust/src/core/signaling.rs Offer, Answer, IceCandidate, Hangup")],
  technique="differential property testing against a hand-written codec of the wire format",
  note="Includes messages built field by field that this version could not make itself.")

P(id="C14", title="The record of a call sums up everything that was reported during it",
  statement="When a call ends, the record handed to the app covers every stream that was reported (up to the documented number of streams): for each its lowest, highest, mean and spread of bitrate, loss, jitter and the other figures over all valid reports and nothing else, the medians over the whole call, whether it was relayed or on mobile data, the counts of reconnections and route changes, and the first times things happened. The detailed report sets kept are exactly the latest ones the limits allow, complete and in order. The encoded record never exceeds its size limit, gives up only the oldest sets first and the summary only if that is not enough, and a user survey is only suggested for calls that connected and were not dropped by the app.",
  over=["histories", "inputs"],
  forall="every history of stream reports, connection events and state changes of direct and group calls, every limit, any number of streams and sizes, including figures that are not numbers",
  why="The unit tests feed a few samples; running sums, first-time marks, pruning and limits depend on the whole history.",
  files=["src/rust/src/core/call_summary.rs"],
  mech=[("report sets", "src/rust/src/core/call_summary.rs StatsSets, prune_if_too_large"),
        ("running sums", "src/rust/src/core/call_summary.rs DistributionSummary, StreamSummaries"),
        ("direct and group records", "src/rust/src/core/call_summary.rs DirectCallSummaryInner, GroupCallSummaryInner")],
  technique="stateful property testing against a model that keeps every report and sums up at the end",
  note="Found and repaired three genuine defects (summary dropped although it fitted, relay time at the end of the call not counted, one stream more than the limit).")

P(id="C15", title="Every call begins, ends and is concluded exactly once",
  statement="Whatever the app, the peers and the network do and in whatever order, every call that is offered or made is started at most once, reported as ended at most once and, in the end, concluded exactly once, in that order, with nothing reported about it afterwards; only the end of a call by resetting everything, and calls that were never started, may go without a report of the end. At no time is more than one call in progress or more than one message being sent, and ending one call never ends another. A callback of the app that fails ends at most the call it belongs to, and once all calls have ended the app is not busy and can make the next call.",
  over=["histories", "schedules", "fault_sequences"],
  forall="every history of app requests, messages from two peers with several devices each (with repeated, stale and colliding call numbers), connection events, timeouts, resets and failing callbacks, at any pace",
  why="Calls are ended from the app's thread, from each call's own thread and from timers at once; the unit tests drive one path at a time and wait after each step.",
  files=["src/rust/src/core/call_manager.rs", "src/rust/src/core/call.rs", "src/rust/src/core/call_fsm.rs", "src/rust/src/core/connection.rs", "src/rust/src/core/connection_fsm.rs"],
  mech=[("starting and colliding", "src/rust/src/core/call_manager.rs handle_call, handle_received_offer, check_for_collision"),
        ("ending", "src/rust/src/core/call_manager.rs terminate_call, terminate_active_call, handle_reset; src/rust/src/core/call.rs Drop"),
        ("message queue", "src/rust/src/core/call_manager.rs send_next_message, trim_messages")],
  technique="stateful property testing of the real call manager with its threads against invariants over the recorded history, with injected callback failures",
  note="Found and repaired eleven genuine defects (see known_findings.txt), among them calls ended twice, never concluded, or started after their end, and a self-deadlock.")

CALLFILES = ["src/rust/src/core/call_manager.rs", "src/rust/src/core/call.rs", "src/rust/src/core/call_fsm.rs", "src/rust/src/core/connection.rs", "src/rust/src/core/connection_fsm.rs"]
MODEL = "stateful model-based property testing: the real call manager with its threads against a reference model of one device, compared after every step"

P(id="C16", title="When calls collide, the same one survives on both sides",
  statement="An offer that arrives while a call is in progress is answered busy, and leaves the call as it was, if it comes from another user or from another device of the user being talked to; a busy answer goes to the caller exactly once. If two users call each other, the call with the higher number survives on both sides and the other ends as a glare with a hangup, and with equal numbers both end; a device that rings again with a new number although its earlier call is accepted, or still rings, replaces that earlier call. An offer that is too old is reported as expired and starts nothing.",
  over=["histories", "inputs"],
  forall="every history in which offers from two users with several devices each, with higher, lower and equal call numbers, old or fresh, meet a call in any state",
  why="The verdict depends on two numbers, two devices, the direction and the state of the call at that moment; the tests sample a handful of combinations.",
  files=CALLFILES[:3],
  mech=[("verdict", "src/rust/src/core/call_manager.rs check_for_collision, handle_received_offer"),
        ("busy", "src/rust/src/core/call_manager.rs send_busy, handle_received_offer")],
  technique=MODEL,
  note="Found and repaired two genuine defects: an offer's device wasn't known until the call was handed over, and a device ringing again got busy from its own earlier call.")

P(id="C17", title="One of several ringing devices gets the call, and the others learn why",
  statement="While a call rings on several devices of the callee, the first that accepts becomes the only one the caller talks to: every other one is told that the call was accepted, and by which device. The first device to decline, to be busy, or to need permission ends the call and has the others told that, with its number; a device whose connection fails while others still ring only drops out. Answers, candidates, busy messages, hangups and media messages from a device that isn't part of the call, or isn't the one that accepted, never change the call.",
  over=["histories", "schedules"],
  forall="every interleaving of answers, candidates, connection events, acceptances, hangups, busy messages and failures of up to three devices of the callee, in any order and repeated",
  why="Which device wins depends on the order of messages on two channels (signaling and the connections' own); tests only try the usual order.",
  files=CALLFILES,
  mech=[("acceptance", "src/rust/src/core/call_fsm.rs; src/rust/src/core/connection_fsm.rs handle_accept; src/rust/src/core/call.rs send_hangup_via_rtp_data_and_signaling_to_all_except"),
        ("passing on", "src/rust/src/core/call_manager.rs handle_received_hangup, handle_received_busy")],
  technique=MODEL,
  note="Found and repaired two genuine defects: a busy of a bystander ended an accepted call; candidates from a device without a connection ended the call.")

P(id="C18", title="An accepted call keeps its media, status and bit rate in step with the peer",
  statement="A call counts as accepted only once it has been accepted and its connection is up, in whichever order that happens, and only then are the microphone and the remote media switched on and status messages of the peer reported. Of the peer's status and bit rate messages only ones newer than all before count, each change is reported once, and the send rate is the smallest of what the two sides and the kind of route allow. A connection that drops is reported as reconnecting and, when it is back, as reconnected, without the call being lost, and everything this side last said about itself is repeated until the call ends.",
  over=["histories"],
  forall="every history of an accepted (or not yet accepted) call with status and bit rate messages in any order, repeated and stale, changes of data mode and route, and drops of the connection",
  why="Messages travel unordered and repeated on an unreliable channel; every combination of what arrived before acceptance, before connection and after matters.",
  files=CALLFILES,
  mech=[("messages", "src/rust/src/core/connection_fsm.rs handle_received_sender_status_via_rtp_data, handle_received_receiver_status_via_rtp_data"),
        ("media", "src/rust/src/core/call_fsm.rs; src/rust/src/core/call.rs connect_incoming_media"),
        ("bit rate", "src/rust/src/core/connection.rs update_bandwidth_controller, apply_bandwidth_controller, set_remote_max_bitrate")],
  technique=MODEL,
  note="Held once the defects found under C15 to C17 and C19 were repaired.")

P(id="C19", title="A call ends for the right reason, and the other side hears of it",
  statement="Whatever ends a call - the user hanging up or dropping it, the peer, another device, a failed connection, a message that couldn't be sent, a timeout - is what is reported as the reason, and the peer's devices get the hangup that belongs to it on both channels exactly when the end comes from this side and an offer was sent or a call accepted; ends that came from the peer aren't echoed. Messages to send are sent one after the other in the order they were queued, the ones of a call that has ended are dropped except its hangup and busy, and candidates are sent together. A hangup or candidates that arrive ahead of their offer apply to that call once the offer comes, and to no other.",
  over=["histories", "fault_sequences"],
  forall="every history of making, receiving, accepting, hanging up, dropping and resetting calls, with messages in any order, failing deliveries, connection failures and timeouts",
  why="The reason and the hangup are decided in different threads from flags set elsewhere; the tests look at one ending each from a settled state.",
  files=CALLFILES,
  mech=[("ending", "src/rust/src/core/call_manager.rs terminate_call, handle_hangup, handle_drop_call, handle_received_hangup"),
        ("queue", "src/rust/src/core/call_manager.rs send_next_message, trim_messages")],
  technique=MODEL,
  note="Found and repaired a genuine defect: the hangup of a call was discarded if the call terminated before its thread got to send it.")

P(id="C20", title="The devices of a call agree on it, down to its media keys",
  statement="When users with several devices each call, accept, decline and hang up in any order and every message gets through, all devices come to agree: each accepted call is between exactly one device on each side, no device is left ringing for or talking in a call nobody else is in, and after hanging up all are free. Both ends of every connection encrypt with the same pair of keys, one per direction, and no two connections share a key. No call has two devices calling, and a device is told a call was accepted, declined, busy or hung up elsewhere only if it was.",
  over=["histories", "schedules", "fault_sequences"],
  forall="every interleaving of the actions of two or three users with up to three devices each, the signaling between them (kept in order per pair of devices), connections that come up at either end first or break, and messages that can't be sent",
  why="The agreement is a property of several devices at once; each test has one device and plays the others by script.",
  files=CALLFILES + ["src/rust/src/core/signaling.rs"],
  mech=[("keys", "src/rust/src/core/connection.rs negotiate_srtp_keys"),
        ("offers and hangups", "src/rust/src/core/call_manager.rs; src/rust/src/core/call.rs proceed, should_send_hangup")],
  technique="stateful property testing of several real call managers joined by a generated network, against invariants at quiescence",
  note="Found and repaired a genuine defect: a call hung up while it was being handed over could still send its offer, without a hangup, and leave the callee ringing. Messages between a pair of devices stay in order and aren't lost (except ones reported as not sent).")

P(id="C21", title="A call that is over leaves no threads behind",
  statement="However a call ends, and even if it was refused, displaced or dropped before it was started, all threads made for it and its connections stop once it is concluded. So a device that keeps being called, even with calls that come to nothing, never uses up its threads.",
  over=["histories"],
  forall="every history of the kinds of C16 to C19, each ending with everything reset",
  why="A leaked thread changes nothing a test looks at; only repetition shows it, in the end by aborting the app.",
  files=CALLFILES[:3] + ["src/rust/src/core/util.rs"],
  mech=[("start and stop", "src/rust/src/core/call.rs, src/rust/src/core/call_fsm.rs Drop")],
  technique="stateful property testing with a census of the process's threads before and after each history",
  note="Found and repaired a genuine defect: each offer refused as busy or in a glare left two threads, until thread creation failed and the app aborted.")

GROUPFILES = ["src/rust/src/core/group_call.rs", "src/rust/src/core/crypto.rs"]

P(id="C22", title="Media keys follow who is in a group call",
  statement="At every moment of a group call, everybody in the call who has received the keys sent to them can decrypt what is sent, including someone who joins while a change of key is under way, and someone who asks late and is sent the keys again. When somebody leaves, everybody else gets a new key, it is used five seconds later, and from then on those who left can decrypt nothing; if more people leave meanwhile, another change follows. Who joins later cannot decrypt what was sent before, keys are only ever sent to those who are in the call, and each of a user's own other devices gets them too.",
  over=["histories", "schedules"],
  forall="every history of devices of several users coming and going, with messages delayed by up to two seconds, requests to resend, and waits around the five seconds until a new key is used",
  why="Tests look at single key messages; who can decrypt is a matter of all keys sent so far, to whom, and when each comes into use.",
  files=GROUPFILES,
  mech=[("keys", "src/rust/src/core/group_call.rs rotate_/advance_/send_pending_media_send_key*, resend_media_keys")],
  technique="stateful property testing in real time with independent receivers that hold just the keys sent to their user",
  note="Each frame is tried by every receiver, past, present and future. Found and repaired a genuine defect (keys sent again left out the one about to be used).")

P(id="C23", title="A group call's view of others is what they and the server last said",
  statement="The devices the app is shown are those the server last listed, each with its user, keys, mute, video, presenting, speaker and hand state, and state learnt of a device is kept until it leaves the list: the newest status message of each device counts and older or repeated ones are ignored, a newer speaker replaces an older one, and video forwarded at a height below the promised one is awaited until a frame of that height comes or the video stops. A remote mute is reported as observed only if the muting was requested by the one it is attributed to since the device was last unmuted; reactions, requests to mute oneself and changes of raised hands are reported exactly once; keys and goodbyes are only accepted from the user the device belongs to, and keys for unknown devices are kept until the device appears. Reliable messages of the server have their effects in the order they were sent, once each, however they arrive.",
  over=["histories", "inputs"],
  forall="every history of participant lists, pushes, polls, keys, status messages, goodbyes, reactions, mute requests, speakers, hands, forwarded heights and frames, including forged, stale, repeated and fragmented ones, of up to nine devices",
  why="Tests check one message at a time; staleness, reappearing devices and the memory of earlier messages only matter over a history.",
  files=GROUPFILES[:1],
  mech=[("participants", "src/rust/src/core/group_call.rs set_peek_result_inner"), ("messages", "src/rust/src/core/group_call.rs handle_*_received, handle_sfu_to_device"), ("video height", "src/rust/src/core/group_call.rs PeerConnectionObserverImpl")],
  technique="stateful property testing of one client against a reference model of its view, with the harness playing the server and the others",
  note="Every notification and its content is compared after every step. Found and repaired four genuine defects (reliable messages lost, forwarded video forgotten, heights not noticed again, send rates).")

P(id="C24", title="Joining, ringing and leaving a group call happen in order and end once",
  statement="A group call passes only through the states of connecting and joining that its history allows, each change is reported once, being in a call makes the user busy and every way of leaving or failing frees them, and a call that was connected ends exactly once, with the reason of what ended it, after which nothing is reported. On leaving, everybody who was in the call and the server are told; joining tells the user's other devices that a ring was accepted; a ring is sent to the group only by who started the call, once, after joining, and is cancelled if its sender leaves before anybody came. The participant list is requested when something suggests it changed, again if that happened while a request was under way, and after ten seconds, but not more often than every five while requests fail.",
  over=["histories", "fault_sequences"],
  forall="every history of connecting, joining, answers and refusals of the server at any time, connection states, leaving, disconnecting, removal, rings, membership proofs, member lists and polls, including requests made while the call is ending and being busy elsewhere",
  why="Tests follow a handful of orderly histories; the disorderly ones (leaving while joining, joining while ending, answers that are late) are where state is left behind.",
  files=GROUPFILES[:1],
  mech=[("states", "src/rust/src/core/group_call.rs connect, join, leave_inner, end, on_sfu_client_join_*"), ("rings", "src/rust/src/core/group_call.rs ring_inner, cancel_full_group_ring_if_needed, accept_ring_if_needed"), ("polls", "src/rust/src/core/group_call.rs maybe_request_remote_devices")],
  technique="stateful property testing against a reference model, with the harness playing server, media engine and app",
  note="The descriptions, candidates and media keys given to the engine are recomputed independently. Found and repaired two genuine defects (answers to joining after leaving, joining while ending).")

P(id="C25", title="What a group call says to the server and the others is current",
  statement="While in a group call, the status others and the server are told is the current one, at once after each change and every second again: mute (with who caused it, if remotely), video, presenting, screen sharing, and the video heights wanted of those in the call, at most at the rate of the data mode. A raised or lowered hand is repeated every half second until the server acknowledges it, requests to admit, deny, remove or block somebody reach the server reliably, in order and naming the right device, and the send rates follow the number of others and screen sharing. Sequence numbers are never reused, nothing is said to others before having been admitted, and nothing at all outside the call.",
  over=["histories"],
  forall="every history of the app's requests mixed with changes of the participant list, acknowledgements and losses, including several seconds of real time",
  why="Tests check that a request sends a message; that it is current, repeated, and never repeated under a used number is a matter of the whole history.",
  files=GROUPFILES[:1],
  mech=[("to others", "src/rust/src/core/group_call.rs send_heartbeat, broadcast_data_through_sfu"), ("to the server", "src/rust/src/core/group_call.rs send_video_requests_to_sfu, send_raise_hand, reliable_send_device_to_sfu"), ("rates", "src/rust/src/core/group_call.rs compute_send_rates, set_send_rates_inner")],
  technique="stateful property testing against a reference model that decrypts and decodes everything sent",
  note="Found and repaired a genuine defect (screen sharing outside a call changed the send rates).")


P(id="C26", title="Group rings reach the app with what becomes of them",
  statement="A ring of a group is reported as requested, as expired if its message is more than a minute old, or, while in a call, as coming while busy, of which the user's other devices are told; a cancellation and an answer from one's own other devices are reported as well, answers from anybody else and malformed messages never, and a minute after a ring was requested the app is told that it expired. Joining a group call accepts towards one's other devices, once, the latest outstanding ring of that group, unless it has been cancelled by the one who rang, answered, declined or has expired before the app created the call, or the first that came while the call existed without being joined. There is at most one call of a group at a time until it is disconnected, no number of a call is given twice, messages of a group reach its call and no other, and what would wake a sleeping app is exactly what would ring.",
  over=["histories"],
  forall="every history of rings, cancellations and answers of several users for several groups, of any age, malformed or with several parts, of calls created, joined, left, disconnected and deleted, and of one-to-one calls in between",
  why="Tests look at single ring messages; which ring joining accepts depends on all that came before.",
  files=["src/rust/src/core/call_manager.rs", "src/rust/src/core/group_call.rs"],
  mech=[("rings", "src/rust/src/core/call_manager.rs handle_received_call_message, start_group_ring, cancel_group_ring"), ("clients", "src/rust/src/core/call_manager.rs create_group_call_client, disconnect"), ("acceptance", "src/rust/src/core/group_call.rs accept_ring_if_needed, provide_ring_id_if_absent")],
  technique="stateful property testing of the call manager against a reference model of the outstanding rings",
  note="How long a ring rings is shortened to a second by the library's own setting.")

P(id="C27", title="Keys in a call by link go out with valid endorsements, or one by one",
  statement="In a group call joined by link, the client accepts a set of send endorsements from the server, and reports it to the app, only if the set is unexpired, covers exactly the members named with it, all of this call, and verifies under the server's key; any other set is reported as an error and never used. Media keys go out in one message that carries, for every recipient and no one else and never for our own user, the endorsement from the set that came with the change of devices, or, if none came, from the set that expires last; if any recipient has no usable endorsement there, the keys go to each user individually, and our own user's other devices always get theirs individually. Endorsements for an expiration date for which a set failed validation aren't used again until a valid set for that date arrives.",
  over=["histories"],
  forall="every history of endorsement sets (valid, expired, garbled, tampered, from another server, for other, missing, swapped or extra members), arriving with or apart from changes of the devices in the call, with key rotations and resends in between",
  why="Tests accept one valid set and refuse a few; which set a later message uses depends on everything the server sent before.",
  files=["src/rust/src/core/group_call.rs", "src/rust/src/core/endorsements.rs"],
  mech=[("validation", "src/rust/src/core/group_call.rs handle_send_endorsements_response_inner"), ("choice of set", "src/rust/src/core/endorsements.rs get_endorsements_for_users"), ("sending", "src/rust/src/core/group_call.rs send_media_send_key_to_users_over_signaling")],
  technique="stateful property testing of a real client against a model of the sets, with endorsements issued by real server keys",
  note="Times are the real clock's: expirations are whole days from today.")

P(id="C28", title="The app is warned of speech and of too little bandwidth, once and in time",
  statement="In a group call the app is told that our own user has been speaking once at least five seconds of sound came from an unmuted microphone, pauses under three seconds not counting as silence, and that the speech stopped after three seconds of silence following that, the two always in turn and never outside the call. While video can be sent to somebody in an established call, an estimate of less than 70 kbps (60 kbps in a one-to-one call that is accepted and has our video on) is reported once as too low, and a later one above 80 kbps (70 kbps) as recovered, once and not within six seconds of the first report; after that nothing more of it is said, and after an interruption before the first report no estimate counts for ten seconds. In one-to-one calls audio levels are reported at exactly the requested interval and with the engine's values, and our latest status is repeated unchanged to the peer every second.",
  over=["histories", "schedules"],
  forall="every course of audio levels, mutings, bandwidth estimates, others joining and leaving, and interrupted and restored connections, and every number of clock ticks between them",
  why="Warnings depend on how long conditions lasted and in which order they changed; no test waits for any of them.",
  files=["src/rust/src/core/group_call.rs", "src/rust/src/core/connection.rs"],
  mech=[("speech", "src/rust/src/core/group_call.rs speaking notifications"), ("bandwidth in groups", "src/rust/src/core/group_call.rs BweCheckState"), ("direct calls", "src/rust/src/core/connection.rs tick")],
  technique="property-based testing of timed scripts against a simulation that allows for when checks happen",
  note="Group calls run in real time, so only changes clear of a threshold are judged; direct calls are ticked one by one.")

P(id="N07", title="The desktop app is told exactly what the engine and its calls report",
  statement="Whatever the call logic reports to the desktop platform - call states with remote ends and their reasons, outgoing offers, answers, candidates, hangups and messages with their recipients and urgency, audio levels, low bandwidth, connection routes, and a group call's connection and join states, devices, peek results, raised hands, reactions, mute requests, rings, network quality and end - reaches the app once, at the function meant for it, with every value unchanged, and an error of the app comes back as an error. Peers are compared by their names. A connection made for a call goes through a relay exactly if the address of the user is to be hidden, has the call's ICE servers in order, its jitter and report settings and its tracks, one per request, and fails without leaving anything behind if the engine can't make it.",
  over=["inputs", "configurations"],
  forall="every sequence of reports with any values, an app that fails at any of them, and every configuration of a call with an engine that fails at any point",
  why="Tests run above this layer with a platform of their own, so nothing samples it.",
  files=["src/rust/src/native.rs"],
  mech=[("reports", "src/rust/src/native.rs NativePlatform"), ("connections", "src/rust/src/native.rs create_connection")],
  technique="property-based testing against a recording app and a recording engine",
  note="The engine and the app are stand-ins that record; what the engine does with it is out of reach here.")

P(id="N08", title="Call quality figures say what happened since the last report",
  statement="Each report of call quality gives, for every stream, the figures of the time since the previous report of the same stream: rates per second of the time that passed, percentages of what was due, delays per packet or frame in milliseconds, and the current value of figures that are not running totals; a stream that is new, or was reset, is not compared with another's past. Whatever the counters, no figure is infinite or not a number, and lost packets that turn up later never give a negative loss. Streams the engine reports are all passed on, in one bracketed report, with the time, the connection and the call they belong to.",
  over=["histories", "inputs"],
  forall="every sequence of engine reports over several streams, with any counter values, repeated and zero time differences, restarts and missing strings",
  why="No test feeds the observer two reports in sequence; differences, restarts and divisions by nothing only show there.",
  files=["src/rust/src/webrtc/stats_observer.rs"],
  mech=[("figures", "src/rust/src/webrtc/stats_observer.rs on_stats_complete and the snapshots' derive functions")],
  technique="stateful property testing against a model written from the meaning of each figure",
  note="Found and repaired three genuine defects (infinite frame rate, jitter as a difference in the wrong unit, send delay divided by frames).")
