"""Text of the properties; `python3 tools/props.py` writes properties.jsonl and
MANIFEST.json from it and from the case table."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import properties_table as T

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=None, na=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, observe=observe or [], na=na, note=note))


prop("C01", "Every milter command is encoded to exactly its wire form",
     "Every packet produced for a milter command is the big-endian length, the command byte and exactly the bytes the "
     "milter protocol prescribes for the arguments, for arguments of any length and content. No byte of an earlier "
     "packet of the same encoder appears in it, and the reported size is the number of bytes of the packet.",
     ["inputs", "histories"], "every command, every argument value and length, any previous use of the encoder",
     "the encoder tests encode one fixed value per command with a fresh encoder",
     ["milter/core/milter-command-encoder.c", "milter/core/milter-encoder.c"],
     [("milter_command_encoder_encode_*", "milter/core/milter-command-encoder.c"),
      ("milter_encoder_pack", "milter/core/milter-encoder.c")],
     ["packet and packet_size handed to the writer"])
prop("C02", "Every milter reply is encoded to exactly its wire form",
     "Every packet produced for a reply to the MTA (actions, reply codes, header and recipient modifications, body "
     "replacement, negotiation, quarantine, progress) is the big-endian length, the reply byte and exactly the bytes "
     "the milter protocol prescribes for its arguments, whatever their length and content. Of a replacement body the "
     "encoder takes at most a packet-full and reports how many bytes it took (an empty body is one empty packet); a reply without its required argument "
     "gives no packet at all; a command no macro is asked for at has an empty list of macros.",
     ["inputs", "histories"], "every reply, every argument value and length, any previous use of the encoder",
     "the encoder tests encode one fixed value per reply with a fresh encoder",
     ["milter/core/milter-reply-encoder.c", "milter/core/milter-encoder.c"],
     [("milter_reply_encoder_encode_*", "milter/core/milter-reply-encoder.c"),
      ("milter_encoder_pack", "milter/core/milter-encoder.c")],
     ["packet and packet_size handed to the writer"])
prop("C03", "A byte stream is split into the same packets however it is chunked",
     "For every byte stream and every way of cutting it into reads, the decoder delivers exactly the complete packets "
     "of the stream, once each, in order and with their exact bytes, and keeps exactly the incomplete rest. After a "
     "packet is rejected nothing further is delivered; a stream that ends inside a packet, or a packet without a "
     "command byte, is reported as an error.",
     ["inputs", "histories", "schedules"], "every stream, every chunking, every decoder state reachable from them",
     "tests feed whole packets in one call",
     ["milter/core/milter-decoder.c"],
     [("milter_decoder_decode", "milter/core/milter-decoder.c"), ("milter_decoder_end_decode", "milter/core/milter-decoder.c")],
     ["decode emissions", "return value and error of milter_decoder_decode"])
prop("C04", "Every command packet is decoded exactly or rejected without effect",
     "For every command packet of any size and content the decoder either reports exactly one command whose arguments "
     "are exactly the packet's bytes, or reports an error and no command. It never reads outside the packet nor writes "
     "outside its own buffers, even for hostile packets.",
     ["inputs"], "every packet content and size up to 2^28 bytes",
     "tests decode a handful of well-formed and a few malformed packets",
     ["milter/core/milter-command-decoder.c", "milter/core/milter-decoder.c"],
     [("decode / decode_* handlers", "milter/core/milter-command-decoder.c"),
      ("milter_decoder_decode_null_terminated_value, milter_decoder_check_command_length", "milter/core/milter-decoder.c")],
     ["signals of the command decoder"])

prop("C05", "Every reply packet is decoded exactly or rejected without effect",
     "For every packet received from a milter, of any size and content, the decoder either reports exactly one reply "
     "whose arguments are exactly the packet's bytes (texts up to their NUL, body chunks with every byte, header "
     "positions, negotiation words and macro requests per stage; a reply code with its number, its extended code if it "
     "has one and the text of its lines), or reports an error and no reply. It never reads outside the packet.",
     ["inputs"], "every packet content and size up to 2^28 bytes",
     "tests decode a handful of well-formed and a few malformed packets",
     ["milter/core/milter-reply-decoder.c", "milter/core/milter-reply-signals.c", "milter/core/milter-decoder.c"],
     [("decode / decode_reply_* handlers, decode_macros_requests", "milter/core/milter-reply-decoder.c"),
      ("milter_utils_macro_stage_to_command", "milter/core/milter-utils.c")],
     ["signals of the reply decoder"])


prop("C07", "The headers milters see and edit are the message's headers, in order, by name and occurrence",
     "The list of a message's headers holds exactly the headers put into it, in order, duplicates included. Names are "
     "compared without regard to case, values exactly. The n-th header of a name is the one changed or deleted when "
     "asked by name and n (n from 1), and no other; a change to a header that is not there adds it, a change to "
     "nothing deletes it; an insertion puts it at the position given; an addition goes before the headers of the same "
     "name, else to the end. A copy is equal and independent.",
     ["inputs", "histories"], "lists of any length, any names, values and positions",
     "tests edit lists of a few headers with names spelt alike",
     ["milter/core/milter-headers.c"],
     [("milter_headers_{add,append,insert,change,delete}_header, milter_headers_{remove,find,lookup_by_name,index_in_same_header_name,copy}", "milter/core/milter-headers.c")],
     ["header list of a message"])


SC = "milter/server/milter-server-context.c"
CH = "milter/manager/milter-manager-children.c"
prop("C08", "The MTA gets one reply per command: the most severe answer of all milters",
     "However many milters are connected and in whatever order they answer a command, the MTA gets exactly one reply to "
     "it, not before the last awaited milter has answered, and that reply is the most severe answer given (discard, "
     "then reject, temporary failure, continue, skip, accept; a milter in evaluation mode counts as accept unless it "
     "continues). A custom reply code, with its texts, is used only for the reply it was given for and only if the "
     "reply is of its class (4xx temporary failure, 5xx reject). A refused or discarded message is dropped by every "
     "milter and a refused recipient refuses only that recipient; a milter that merely accepts leaves the message to "
     "the others.",
     ["histories", "schedules", "inputs"], "every number of milters, every order and combination of answers, every state the milters can be in",
     "tests drive a few fixed milter combinations; the number of orders and combinations is unbounded",
     [CH, "milter/core/milter-protocol.c"],
     [("cb_continue, cb_reject, cb_temporary_failure, cb_accept, cb_discard, cb_reply_code", CH),
      ("compile_reply_status, remove_child_from_queue, emit_reply_status_of_state", CH),
      ("milter_status_compare", "milter/core/milter-protocol.c")],
     ["reply signals of the children object"])
prop("C10", "Every milter that takes part gets every command of the MTA exactly once",
     "For any number of milters in any state: a connection, greeting, sender or unknown command goes exactly once, with "
     "the arguments given, to every milter that is still there; a recipient to every milter handling the message; DATA "
     "and the message to every milter handling it for a recipient it accepted, while the others are told to abort. No "
     "milter that quit or failed is ever asked anything. Exactly the answers that will come are awaited, and nobody is "
     "counted before all have been asked. Macros go to the milters that get the command they belong to. The negotiation "
     "offers every milter the MTA's options (at most protocol version 6) and answers once, with every event requested "
     "and only steps that both sides want. Abort and quit reach every milter they concern exactly once and nothing of "
     "the message is kept.",
     ["histories", "inputs"], "every number of milters, every state of each of them, all arguments",
     "tests use at most a few milters in ordinary states",
     [CH, "milter/core/milter-option.c"],
     [("milter_manager_children_{connect,helo,envelope_from,envelope_recipient,data,unknown,define_macro,abort,quit,negotiate}", CH),
      ("init_command_waiting_child_queue, init_reply_queue", CH),
      ("reply_negotiate, cb_negotiate_reply, check_fallback_status_on_negotiate", CH)],
     ["requests to the milters", "negotiate-reply signal"])
prop("C12", "A failing milter counts as its fallback status and disturbs nobody else",
     "When a milter fails (cannot be connected to, protocol error, reading or writing timeout, end-of-message timeout, "
     "connection closed), its configured fallback status counts as its answer to the command it was asked, it is never asked or heard again, "
     "and the session goes on: the other milters are still awaited and still get the whole message, the MTA gets "
     "exactly one reply to the command. A milter that was not being asked anything changes no answer.",
     ["histories", "schedules", "crash_points"], "every kind of failure at every command, every number and state of the other milters",
     "tests kill a milter at a few points of a session with one or two milters",
     [CH],
     [("cb_error, cb_writing_timeout, cb_reading_timeout, cb_end_of_message_timeout, cb_finished", CH),
      ("fallback_child, expire_child, remove_child_from_queue", CH),
      ("child_establish_connection, cb_connection_error, cb_connection_timeout, check_fallback_status_on_negotiate", CH)],
     ["reply signals of the children object", "requests to the other milters"])
prop("C09", "The MTA is told exactly the milters' modifications",
     "What a milter asks to modify at the end of the message, and nothing else, reaches the MTA: an added, inserted, "
     "changed or deleted header, the sender, an added or removed recipient, a quarantine, progress, a replaced body. In "
     "evaluation mode nothing is modified; outside the end of the message a modification is refused and its milter quit. "
     "After the last milter the MTA is told header changes that, carried out in order, turn the headers it sent into "
     "exactly the headers the milters left (same names and values, each as often); the sender and the quarantine reason are "
     "the last milter's; recipients and progress are passed on at once. A replaced body is sent whole and in order in "
     "chunks of at most the configured size, also when it is empty, and the milters after the modifying one get the "
     "modified headers and the replaced body instead of the original.",
     ["inputs", "histories"], "every modification with any arguments, every milter's state and mode, every number of headers and body size",
     "tests make one or two modifications of each kind to a small message",
     [CH, "milter/core/milter-reply-encoder.c"],
     [("cb_add_header, cb_insert_header, cb_change_header, cb_delete_header, cb_change_from, cb_add_recipient, cb_delete_recipient, cb_quarantine, cb_progress, cb_replace_body", CH),
      ("emit_header_signals, emit_replace_body_signal*", CH), ("milter_manager_children_end_of_message", CH)],
     ["modification signals of the children object", "header list and body handed to the next milter"])

prop("C13", "Every milter gets the whole message, in order, as the milters before it left it",
     "The milters handling a message get it one after the other. Each gets every header in order and once (with the "
     "leading space of its value only if the MTA and the milter both know of it), the end of the headers, every byte of "
     "the body once and in order, in parts of at most the configured size, and the end of the message with its last "
     "chunk, as far as the MTA has sent them, whether the body is kept in memory or in a file. Each gets one part at a "
     "time and the next one when it has answered; the next milter starts when the one before has finished. The MTA is "
     "told to go on only when the milter being fed has everything so far, and commands that arrive before DATA was "
     "answered are kept unchanged until it is.",
     ["inputs", "histories", "schedules"], "every number of milters, headers and header positions, every body and chunk size, every position in the message",
     "tests send messages of a few headers and chunks through one or two milters",
     [CH],
     [("milter_manager_children_{header,end_of_header,body,end_of_message}", CH),
      ("cb_continue, cb_skip, send_next_header_to_child, send_body_to_child*, init_child_for_body*", CH),
      ("send_command_to_child, send_next_command, send_first_command_to_next_child", CH)],
     ["requests to the milters", "continue signal of the children object"])

prop("C14", "A milter its applicable condition excludes is left out and refuses nothing",
     "When a milter's applicable condition says stop at a command, that milter is left out: excluded at connect or helo "
     "it is told to quit, excluded at MAIL it is not given the message, excluded at RCPT it is only left out of that "
     "recipient, excluded from DATA on it is told that the message is over. It refuses nothing: its answer counts as "
     "continue (accept from DATA on), so the MTA gets exactly one reply, decided by the other milters, and the other "
     "milters still get every command and the whole message.",
     ["inputs", "histories"], "every command at which the condition stops, every number, state and answer of the other milters",
     "tests stop a single milter at a few commands",
     [CH, "milter/server/milter-server-context.c"],
     [("cb_stopped", CH), ("emit_reply_status_of_state, send_first_command_to_next_child", CH)],
     ["reply signals of the children object", "requests to the milters"])
prop("C15", "A milter's reply counts once, as what it is, and only where it fits",
     "A reply of a milter is reported exactly once, as the reply it is and with exactly its arguments, if it fits the "
     "command the milter was asked last; from a milter that was told to quit nothing is reported, and a reply that does "
     "not fit (a modification, progress or quarantine outside the end of the message, a skip outside the body, a "
     "negotiation reply outside the negotiation, an answer to nothing) is an error and changes nothing of the message. "
     "A refusal counts for the recipient asked about, otherwise for the message, and the message is reported as "
     "processed exactly once when it is decided. The next command may be sent while a reply is reported, and is then "
     "awaited. A body chunk is answered when all of it was sent.",
     ["inputs", "histories", "schedules"], "every reply with any arguments, every state, status and outstanding commands of the milter",
     "tests send each reply in the one state where it belongs, with nothing else going on",
     [SC, "milter/core/milter-reply-signals.c"],
     [("cb_decoder_*, decoder_new", SC), ("invalid_state, check_reply_after_quit", SC),
      ("decrement_process_body_count, clear_process_body_count, emit_message_processed_signal", SC)],
     ["reply, error and message-processed signals of the server context"])
prop("C16", "A command reaches a milter exactly once, with its macros, unless the milter does not want it",
     "A milter is connected to at its address, without waiting; that it is reached, cannot be reached or is not reached in "
     "the time configured is reported once. A command for a milter is written exactly once, as one packet with exactly its arguments, preceded by the macros "
     "the milter asked for at that command, and then its answer (if one will come) is awaited for the configured time. "
     "A command the milter does not want, or whose condition excludes the milter, is answered at once and not sent. A "
     "milter still working on a command gets no other, except abort and quit, which go out at any time. A body chunk is "
     "sent completely and in order, whatever its size. The milter's state follows what has been sent, in order. An "
     "abort ends the message it belongs to and nothing of the next one; a message starts without anything answered to the one before (a body skipped then is not skipped now); quit closes the connection after it was sent. A "
     "failed write and a timeout are reported as what they are.",
     ["inputs", "histories", "schedules"], "every command with any arguments, every state, option and outstanding command of the milter, every outcome of the write",
     "tests send commands one at a time in the usual order",
     [SC],
     [("milter_server_context_establish_connection, connect_watch_func, cb_connection_timeout", SC),
      ("milter_server_context_{negotiate,connect,helo,envelope_from,envelope_recipient,data,unknown,header,end_of_header,body,end_of_message,quit,abort}", SC),
      ("write_packet, prepend_macro, filter_macros, flush_body", SC),
      ("flushed, process_next_state, process_next_state_body, continue_without_reply", SC)],
     ["packets written to the milter", "signals of the server context", "timeouts"])

CC = "milter/client/milter-client-context.c"
LE = "milter/manager/milter-manager-leader.c"
prop("C17", "What the milters decide reaches the MTA once, as decided",
     "Every command of the MTA is handed over once, in its state, with exactly its arguments, and is answered by exactly one "
     "packet for what was decided about it: continue, accept, discard, skip, a plain refusal, or the reply code given with "
     "that very refusal (every line of its text carries the code), of the class of the refusal. Where no milter is left to "
     "decide, the configured fallback status is the one answer. Modifications are accepted only at the end of the message and only if "
     "negotiated; they are sent as given, in their order, each once, all of them before the answer to their message "
     "and the quarantine right before it; those of an aborted message are dropped. A command without a decision is not answered, "
     "an abort never is. A write that fails and an MTA that stays silent are reported; a session whose client has gone "
     "is ended with the status configured for that.",
     ["inputs", "histories", "schedules"],
     "every command and answer with any arguments, every state, options, buffered modifications and remembered reply code, every outcome of a write",
     "tests drive one session with one fixed answer per command and no failing write",
     [CC, LE, "milter/core/milter-utils.c"],
     [("cb_decoder_*, status_accumulator", CC), ("reply, create_reply_packet, *_response", CC),
      ("write_packet, write_packet_on_end_of_message, milter_client_context_{add_header,...,replace_body,quarantine,set_reply}", CC),
      ("milter_manager_leader_*, reply, cb_*", LE), ("milter_utils_format_reply_code", "milter/core/milter-utils.c")],
     ["packets written to the MTA", "signals of the client context"])

prop("C06", "Options and macro requests are combined bit by bit and name by name",
     "Whatever is offered and wanted, options are combined so that each side gets what it can rely on: what two sides have in common "
     "is exactly the actions and steps both have, in the version of the second; what several milters need together is every "
     "action any of them needs, every step any of them wants, and an event or a reply left out only if all of them leave it out; "
     "an option of a newer protocol version than there is changes nothing and is refused. The bits are those of the milter protocol. "
     "The macros asked for at a command are exactly those set for it, in order; merged requests ask, at each command, for the macros of the first "
     "and then those of the other not among them, and the other and all copies stay as they are.",
     ["inputs"], "every version, action and step word; requests for any number of macros at any command",
     "the tests combine a handful of flag words and short lists",
     ["milter/core/milter-option.c", "milter/core/milter-macros-requests.c"],
     [("milter_option_{combine,merge,copy,new,equal,add_*,remove_*,get_*}, milter_step_flags_merge", "milter/core/milter-option.c"),
      ("milter_macros_requests_{set_symbols_string_array,get_symbols,merge,foreach}, merge_requests", "milter/core/milter-macros-requests.c")],
     ["options and macro requests handed to MTA and milters"])
prop("C11", "At a command, macros have the values given at the latest command so far",
     "A macro asked for by name (with or without braces) is there exactly if it was defined at the current command or one before it in the "
     "order of a session, and has the value given at the latest of these; outside the commands of a session all macros defined count. "
     "New macros of a command replace all it had, a single macro set or removed changes no other; dropping "
     "the macros of a message keeps those of the connection and the greeting. Each of these is seen at once, whatever was asked before; what is kept is a copy.",
     ["inputs", "histories"], "every history of definitions, every command, any macros and values, asked for at any time",
     "tests define a few macros in the usual order and ask once",
     ["milter/core/milter-protocol-agent.c", "milter/core/milter-utils.c"],
     [("milter_protocol_agent_{get_macro,get_macros,get_available_macros,set_macro,set_macros,set_macros_hash_table,set_macro_context,clear_macros,clear_message_related_macros}", "milter/core/milter-protocol-agent.c"),
      ("milter_utils_merge_hash_string_string", "milter/core/milter-utils.c")],
     ["milter_protocol_agent_get_macro", "macros sent to the milters"])
prop("C18", "Bytes go through readers and writers whole, in order and once, and the end is told once",
     "What is written is handed to the connection completely, byte for byte in the order written, however little the connection takes at a time; "
     "a flush asked for is done once everything written before it has gone, and told once. What comes in on a connection is handed on unchanged, once and in order, "
     "including what the peer sent before it closed the connection. After an error or a shutdown nothing more is handed on; "
     "that an error occurred is told once, that the end has come is told once and last, after which nothing is awaited any more. A shutdown or "
     "a release by the owner at any time, also from within what it is told, is safe.",
     ["inputs", "schedules"], "every sequence of writes, flushes and shutdowns, every size of piece the channel takes or gives, at any point",
     "tests write a few bytes to a channel that takes them all, and close readers from outside their callbacks",
     ["milter/core/milter-writer.c", "milter/core/milter-reader.c", "milter/core/milter-agent.c"],
     [("milter_writer_{write,flush,start,shutdown}, write_watch_func, flush_watch_func, error_watch_func, request_flush", "milter/core/milter-writer.c"),
      ("milter_reader_{start,shutdown}, read_watch_func, error_watch_func, read_from_channel, finish", "milter/core/milter-reader.c"),
      ("milter_agent_{write_packet,flush,start,shutdown,set_reader,set_writer}, cb_reader_*, cb_writer_*", "milter/core/milter-agent.c")],
     ["bytes on the connection", "flow, flushed, error and finished signals"])

prop("C19", "The libmilter API calls the filter's callbacks and carries out its requests one to one",
     "A filter built with the libmilter API sees every event of a session it has a callback for: once, with its own context and with exactly the arguments "
     "that came, and what the callback returns is the answer given; without a callback the default answer is given. The last piece of the body given "
     "with the end of the message reaches the body callback before the end-of-message callback, which is not called if the body callback already decided the "
     "message; an abort is told only within a message; the end of the session is told once, while its context is still valid. In the negotiation the filter "
     "is told what is offered, what it wants counts if it goes on, and the macros it asks for are asked for. Each request of the filter "
     "(reply, header, sender, recipient, body, quarantine, progress, macro) is made once of its own session with the arguments given, and succeeds "
     "exactly if it was carried out. The registered callbacks, connection specification, backlog, timeout and socket are the ones used when "
     "the filter runs; a refused setting leaves the one before.",
     ["inputs", "histories"], "every event, set of callbacks, callback result, request, argument and outcome of a request",
     "the tests of the compatible layer register all callbacks at once and use one argument and one outcome each",
     ["libmilter/libmilter-compatible.c"],
     [("cb_*, smfi_context_set_client_context (events)", "libmilter/libmilter-compatible.c"),
      ("smfi_* (requests and settings), smfi_main, libmilter_compatible_convert_status_{to,from}", "libmilter/libmilter-compatible.c")],
     ["arguments and results of the filter's xxfi_* callbacks", "results of smfi_* and the requests made of the session"])


EG = "milter/manager/milter-manager-egg.c"
CF = "milter/manager/milter-manager-configuration.c"
prop("C20", "A session gets the milters configured, in their order, as configured",
     "A milter or a condition added to the configuration comes after those there and is the one found and removed by its name (exactly that "
     "name, the first of that name); removing one leaves the others as they are. For each session one milter is made of each that is enabled and has an address, in the order "
     "configured, none of a disabled one; it has the name, address, timeouts, user, command and options, fallback status and evaluation mode configured, and exactly "
     "the conditions configured for it are attached to it, in their order, for this session. A setting - of a milter, of a condition, of the manager - is what was set last, "
     "setting one changes no other, and an address that cannot be read is refused and leaves the one before; the chunk size is one with which every body goes on. A milter defined again "
     "starts with the settings it had (timeouts, enabled or not, fallback status, evaluation mode, conditions; address, description, user, command with its options where it had one).",
     ["inputs", "histories"], "every set of settings, every number of milters and conditions configured, every name, usable or unusable address",
     "tests configure one or two milters with one setting each",
     [EG, CF, "milter/manager/milter-manager-child.c", "milter/manager/milter-manager-applicable-condition.c"],
     [("milter_manager_egg_{hatch,merge,attach_applicable_conditions,set_*,get_*,add_applicable_condition,clear_applicable_conditions}", EG),
      ("set_property, get_property", "milter/manager/milter-manager-{child,egg,applicable-condition,configuration}.c, milter/server/milter-server-context.c"),
      ("milter_manager_configuration_{setup_children,add_*,find_*,remove_*_by_name,clear_*}", CF)],
     ["milters of a session (milter_manager_children_add_child)", "properties of the milter made", "settings of the egg"])


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in T.CASES and not p["na"]:
            checks.append({"property": p["id"],
                           "quick_cmd": "VERIF_TIER=quick python3 tools/vp.py check " + p["id"],
                           "thorough_cmd": "VERIF_TIER=thorough python3 tools/vp.py check " + p["id"],
                           "technique": "contract-based deductive verification of the real C functions: CBMC discharges "
                                        "pre/postconditions, frame and loop-invariant obligations generated from /repo's sources on every run",
                           "level": "proof",
                           "level_note": p["note"] or T.level_note(p["id"])})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "no contract harness built yet"})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 tools/vp.py setup", "checks": checks, "not_applicable": na}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
