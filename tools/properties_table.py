"""Which contracts decide which property."""
from vp import Case

CASES = {}          # property -> [Case]


def add(prop, harness, names, A=None, B=None, **kw):
    for n in names.split():
        modes = {}
        if A is not None:
            modes["A"] = dict(A)
        if B is not None:
            modes["B"] = dict(B)
        CASES.setdefault(prop, []).append(Case(harness, n, modes, **kw))


CHUNK = ["-DVP_CHUNK=4"]
# ---------------------------------------------------------------- C01
add("C01", "command_encoder", "negotiate helo envelope_from envelope_recipient unknown data end_of_header "
    "abort quit header body end_of_message connect_inet connect_unix connect_unknown",
    A=dict(unwind=20), B=dict(unwind=22, defs=CHUNK))
add("C01", "command_encoder", "define_macro_none define_macro0 define_macro1",
    A=dict(unwind=25, defs=["-DVP_HT_DIRECT"]), B=dict(unwind=22, defs=CHUNK + ["-DVP_STRMAX=2"]))
for rev in ("0", "1"):
    add("C01", "command_encoder", "define_macro2", alias="define_macro2_rev" + rev,
        A=dict(unwind=25, defs=["-DVP_HT_DIRECT", "-DVP_HT_REV=" + rev]),
        B=dict(unwind=22, defs=CHUNK + ["-DVP_STRMAX=1", "-DVP_GSCAP=32", "-DVP_HT_REV=" + rev]))
add("C01", "command_encoder", "connect_inet6", A=dict(unwind=50), B=dict(unwind=22, defs=CHUNK))

# ---------------------------------------------------------------- C02
add("C02", "reply_encoder", "negotiate negotiate_macros simple reply_code add_header insert_header change_header delete_header "
    "change_from add_recipient delete_recipient quarantine replace_body", A=dict(unwind=20))


# ---------------------------------------------------------------- C04
PTON = ["-Dinet_pton=vp_inet_pton", "-DVP_HT_DIRECT"]
CDEC = dict(connect="decode_connect", define_macro="decode_define_macro", helo="decode_helo",
            envelope_from="decode_envelope_from", envelope_recipient="decode_envelope_recipient",
            unknown="decode_unknown", data="decode_data", end_of_header="decode_end_of_header", abort="decode_abort",
            quit="decode_quit", header="decode_header", body="decode_body", end_of_message="decode_end_of_message",
            negotiate="decode_negotiate")
for c in ("helo envelope_from envelope_recipient unknown data end_of_header abort quit header body end_of_message "
          "negotiate other connect_unknown connect_other connect_inet connect_inet6 connect_unix define_macro").split():
    drop = [f for k, f in CDEC.items() if k != c and not (k == "connect" and c.startswith("connect"))]
    extra = {"connect_inet": ["inet6", "unix"], "connect_inet6": ["inet", "unix"], "connect_unix": ["inet", "inet6"],
             "connect_unknown": ["inet", "inet6", "unix"], "connect_other": ["inet", "inet6", "unix"]}.get(c, [])
    drop += ["decode_connect_%s_address" % x for x in extra]
    add("C04", "command_decoder", c, cost=100 if c == "define_macro" else 10 if c.startswith("connect") else 1, A=dict(unwind=5, unwindset="memcmp.0:18", defs=PTON + (["-DVP_NZ=2"] if c == "define_macro" else [])), drop=" ".join(drop),
        native_defs=PTON + (["-DPMAX=14"] if c == "define_macro" else []))


# ---------------------------------------------------------------- C17
CLI = dict(A=dict(unwind=15, model_unwind=60))
for i, c in enumerate("helo envelope_from envelope_recipient unknown data header end_of_header".split()):
    add("C17", "client_context", "text", alias="command_" + c, defs=["-DWHAT=%d" % i], **CLI)
for c in "connect body end_of_message negotiate define_macro quit abort".split():
    add("C17", "client_context", c, alias="command_" + c, **CLI)
add("C17", "client_context", "response end_of_message_response negotiate_response abort_response timeout progress quarantine "
    "reset_reply set_reply accumulator replace_body", **CLI)
for i, c in enumerate("add_header insert_header change_header delete_header change_from add_recipient delete_recipient".split()):
    add("C17", "client_context", "modification", alias=c, defs=["-DWHAT=%d" % i], **CLI)

for i, c in enumerate("continue temporary_failure reject accept discard skip reply_code".split()):
    add("C17", "leader", "reply", alias="leader_" + c, defs=["-DWHAT=%d" % i], **CLI)
for i, c in enumerate("connect helo envelope_from envelope_recipient data unknown header end_of_header body end_of_message".split()):
    add("C17", "leader", "command", alias="leader_command_" + c, defs=["-DWHAT=%d" % i], **CLI)
for i, c in enumerate("add_header insert_header change_header delete_header change_from add_recipient delete_recipient replace_body "
                      "quarantine progress".split()):
    add("C17", "leader", "change", alias="leader_" + c, defs=["-DWHAT=%d" % i], **CLI)
add("C17", "reply_text", "format", alias="format_first", A=dict(unwind=14, model_unwind=60))
add("C17", "reply_text", "format", alias="format_later", defs=["-DLATER"], A=dict(unwind=14, model_unwind=60))
add("C17", "leader", "negotiate end error check_connection", A=dict(unwind=40, model_unwind=60))


# ---------------------------------------------------------------- C06
add("C06", "option", "combine merge flags copy", A=dict(unwind=15, model_unwind=60))
add("C06", "macros_requests", "merge set get", A=dict(unwind=15, model_unwind=60))


# ---------------------------------------------------------------- C11
add("C11", "protocol_agent", "define set_macro set_macros clear clear_message context available", A=dict(unwind=31, model_unwind=60))


# ---------------------------------------------------------------- C18
add("C18", "writer", "init write flush write_watch flush_watch error_watch shutdown start", A=dict(unwind=13, model_unwind=60))
add("C18", "reader", "read_watch error_watch shutdown start", A=dict(unwind=13, model_unwind=60))
add("C18", "agent", "write_packet flow reader_error writer_error flushed reader_finished writer_finished shutdown start set_reader set_writer", A=dict(unwind=9, model_unwind=60))


# ---------------------------------------------------------------- C19
add("C19", "libmilter", "negotiate connect helo envelope data header body end_of_message abort finished attach request register settings setconn opensocket main convert",
    A=dict(unwind=22, model_unwind=60))
add("C19", "libmilter", "mlreply", A=dict(unwind=22, model_unwind=60), a_bound="at most 3 lines of text")


# ---------------------------------------------------------------- C20
add("C20", "egg", "set hatch merge attach conditions", A=dict(unwind=18, model_unwind=30))
add("C20", "settings", "child server egg condition configuration", A=dict(unwind=45, model_unwind=45))
add("C20", "configuration", "add find remove clear setup chunk_size", A=dict(unwind=6, model_unwind=10))
for p in ("C09", "C13"):
    add(p, "configuration", "chunk_size", A=dict(unwind=6, model_unwind=10))


# ---------------------------------------------------------------- C05
RDEC = dict(simple="decode_reply_continue decode_reply_temporary_failure decode_reply_reject decode_reply_accept decode_reply_discard "
            "decode_reply_progress decode_reply_connection_failure decode_reply_shutdown decode_reply_skip",
            add_recipient_parameters="decode_reply_add_recipient_with_parameters",
            **{k: "decode_reply_" + k for k in "reply_code add_header insert_header change_header change_from add_recipient "
               "delete_recipient quarantine replace_body negotiate".split()})
for c in list(RDEC) + ["other"]:
    add("C05", "reply_decoder", c, A=dict(unwind=21), drop=" ".join(f for k, f in RDEC.items() if k != c),
        native_defs=["-DPMAX=40"] if c in ("negotiate", "reply_code") else [],
        calls="join_reply_lines:gh_join")
add("C05", "reply_decoder", "reply_code", alias="reply_code_lines", drop=" ".join(f for k, f in RDEC.items() if k != "reply_code"), calls="vp_join:join_reply_lines",
    A=dict(unwind=21), defs=["-DLINES"], native_defs=["-DPMAX=40"])


# ---------------------------------------------------------------- C03
add("C03", "decoder_base", "init decode end_decode after_error null_terminated check_length header_content negotiate", A=dict(unwind=5))


# ---------------------------------------------------------------- C08 aggregation, C12 failed milters
CALLS = ("milter_manager_children_abort:gh_abort emit_signals_on_end_of_message:gh_eom_signals milter_manager_children_header:gh_header "
         "milter_manager_children_end_of_header:gh_end_of_header milter_manager_children_body:gh_body "
         "milter_manager_children_end_of_message:gh_end_of_message send_command_to_child:gh_send_command")
for a in "continue temporary_failure reject accept discard reply_code".split():
    add("C08", "children_reply", "conn", alias="conn_" + a, A=dict(unwind=6), defs=["-DANS_" + a], calls=CALLS)
    if a != "continue":
        add("C08", "children_reply", "msg", alias="msg_" + a, A=dict(unwind=6), defs=["-DANS_" + a], calls=CALLS)
for w in ("conn", "msg"):
    add("C14", "children_reply", w, alias=w + "_stopped", A=dict(unwind=6), defs=["-DANS_stopped"], calls=CALLS)
for f in "error reading writing end_of_message finished".split():
    for w in ("msg", "conn"):
        add("C12", "children_reply", "failed_" + w, alias="failed_%s_%s" % (w, f), A=dict(unwind=6), defs=["-DFAIL_" + f], calls=CALLS)


# ---------------------------------------------------------------- C10 handing the MTA's commands to the milters
FAN = dict(A=dict(unwind=6), B=dict(unwind=6), bound="at most 3 milters")
ALIVE = "milter_manager_children_check_alive:gh_alive milter_manager_children_check_processing_message:gh_handling remove_child_from_queue:gh_remove"
for c in "connect helo envelope_from envelope_recipient data unknown".split():
    add("C10", "children_fanout", c, calls=ALIVE, A=dict(unwind=6))
add("C10", "children_fanout", "define_macro check_alive check_processing abort quit", **FAN)
add("C10", "children_fanout", "waiting_children", calls="g_list_append:gh_append", **FAN)
add("C10", "children_fanout", "negotiate", calls="child_establish_connection:gh_establish milter_manager_children_start_child:gh_start prepare_retry_establish_connection:gh_retry", **FAN)
add("C10", "children_fanout", "reply_negotiate", calls="check_fallback_status_on_negotiate:gh_check_fallback", **FAN)
add("C10", "children_fanout", "negotiate_reply", calls="reply_negotiate:gh_reply_negotiate", **FAN)
add("C10", "children_fanout", "fallback", **FAN)


START = "milter_manager_children_start_child:gh_start reply_negotiate:gh_reply_negotiate"
add("C12", "children_start", "establish connection_error connection_timeout ready", A=dict(unwind=45), calls=START)
add("C12", "children_start", "retry", A=dict(unwind=6), calls=START + " child_establish_connection:gh_establish")
add("C12", "children_fanout", "fallback", **FAN)


# ---------------------------------------------------------------- C13 feeding the message to one milter after the other
FEED = ("emit_reply_for_message_oriented_command:gh_final milter_manager_children_check_processing_message:gh_handling "
        "init_command_waiting_child_queue:gh_init_waiting milter_manager_children_data:gh_data")
add("C13", "children_feed", "after_header after_end_of_header after_body after_end_of_message skip", A=dict(unwind=5, model_unwind=18), calls=FEED)
for i, c in enumerate("header end_of_header body end_of_message".split()):
    add("C13", "children_feed", "command", alias="command_" + c, A=dict(unwind=5, model_unwind=18), defs=["-DAT=%d" % i], calls=FEED)


# ---------------------------------------------------------------- C09 the modifications the MTA is told
add("C09", "children_modify", "add_header insert_header change_header delete_header change_from add_recipient delete_recipient quarantine progress", A=dict(unwind=8, model_unwind=8))
add("C09", "children_modify", "end_of_message", A=dict(unwind=8, model_unwind=8), calls="emit_replace_body_signal:gh_body emit_header_signals:gh_headers")
for i in range(4):
    for j in range(4):
        if i + j:
            add("C09", "children_headers", "headers", alias="headers_%d_%d" % (i, j), defs=["-DN0=%d" % i, "-DN1=%d" % j], B=dict(unwind=8, model_unwind=8), bound="at most 3 headers before and after in the bounded check, 6 in the replays")
add("C09", "children_body", "replace_body emit_body", A=dict(unwind=5, model_unwind=18))

# ---------------------------------------------------------------- C16 requests to one milter
REQ = dict(A=dict(unwind=6, model_unwind=45), calls="prepend_macro:gh_prepend")
add("C16", "server_request", "connect helo envelope_from envelope_recipient data unknown header end_of_header body end_of_message quit abort negotiate next_state without_reply timeout", **REQ)
add("C16", "server_connect", "start result too_slow spec", A=dict(unwind=6, model_unwind=60))
add("C16", "server_request", "flushed", A=dict(unwind=6, model_unwind=45), calls="process_next_state:gh_process continue_without_reply:gh_continue")
add("C16", "server_request", "macros", A=dict(unwind=6, model_unwind=45), calls="g_hash_table_size:gh_size g_hash_table_new_full:gh_new g_hash_table_lookup:gh_lookup "
    "g_hash_table_insert:gh_insert g_hash_table_unref:gh_unref")


for c in "connect helo envelope_from envelope_recipient data header end_of_header body end_of_message".split():
    add("C14", "server_request", c, alias="stop_" + c, defs=["-DONLY_STOP"], **REQ)
add("C14", "server_request", "accumulator", A=dict(unwind=6, model_unwind=45, unwindset="vp_main.0:50"))

# ---------------------------------------------------------------- C15 replies of one milter
add("C15", "server_reply", "continue reply_code temporary_failure reject accept discard skip connection_failure shutdown progress negotiate_reply wiring", **REQ)
for i, c in enumerate("add_header insert_header change_header delete_header change_from add_recipient delete_recipient replace_body quarantine".split()):
    add("C15", "server_reply", "modification", alias=c, defs=["-DWHAT=%d" % i], **REQ)

# ---------------------------------------------------------------- C07 the header list
HD = dict(A=dict(unwind=6, model_unwind=45))
LIST = "g_list_insert_before:gh_insert_before g_list_append:gh_append g_list_insert:gh_insert g_list_remove:gh_remove"
add("C07", "headers", "add append insert", calls=LIST, **HD)
add("C07", "headers", "change", calls="milter_headers_add_header:gh_add milter_headers_delete_header:gh_delete", **HD)
add("C07", "headers", "delete", calls=LIST + " milter_header_free:gh_free", **HD)
add("C07", "headers", "remove", calls=LIST + " milter_header_free:gh_free milter_headers_find:gh_find", **HD)
add("C07", "headers", "find lookup_by_name", calls="g_list_find_custom:gh_find_custom", **HD)
add("C07", "headers", "index", **HD)
for i, c in enumerate("add append insert change delete remove find lookup index".split()):
    add("C07", "headers", "edits", alias="concrete_" + c, defs=["-DOP=%d" % i], B=dict(unwind=6, model_unwind=8), bound="lists of at most 2 headers in the bounded check, 8 edits in the replays")
add("C07", "headers", "copy", calls="milter_headers_new:gh_new milter_headers_append_header:gh_append_header", **HD)


def cases(prop):
    return CASES[prop]


def all_cases():
    return [c for v in CASES.values() for c in v]


def functions(prop):
    """functions under contract: the real bodies the cases of the property execute"""
    return sorted({f for c in CASES[prop] for f in c.kw.get("funcs", FUNCS.get(c.h, "")).split()}) or [c.id for c in CASES[prop]]


FUNCS = {
    "command_encoder": "milter_command_encoder_encode_negotiate milter_command_encoder_encode_define_macro "
        "milter_command_encoder_encode_connect milter_command_encoder_encode_helo milter_command_encoder_encode_envelope_from "
        "milter_command_encoder_encode_envelope_recipient milter_command_encoder_encode_data milter_command_encoder_encode_header "
        "milter_command_encoder_encode_end_of_header milter_command_encoder_encode_body milter_command_encoder_encode_end_of_message "
        "milter_command_encoder_encode_abort milter_command_encoder_encode_quit milter_command_encoder_encode_unknown "
        "milter_encoder_pack milter_encoder_encode_negotiate milter_encoder_clear_buffer",
    "command_decoder": "decode decode_define_macro decode_define_macros check_macro_context decode_connect decode_connect_content "
        "decode_connect_inet_address decode_connect_inet6_address decode_connect_unix_address decode_helo decode_envelope_from "
        "decode_envelope_recipient decode_data decode_header decode_end_of_header decode_body decode_end_of_message decode_abort "
        "decode_quit decode_unknown decode_negotiate",
}

FUNCS.update(
    decoder_base="milter_decoder_decode decode_command_length decode_command_content milter_decoder_end_decode "
        "milter_decoder_decode_null_terminated_value find_null_character append_inspected_bytes milter_decoder_check_command_length "
        "milter_decoder_decode_header_content milter_decoder_decode_negotiate milter_decoder_init milter_decoder_get_buffer "
        "milter_decoder_get_command_length",
    reply_encoder="milter_reply_encoder_encode_negotiate encode_macros_requests encode_macros_request milter_reply_encoder_encode_continue "
        "milter_reply_encoder_encode_reply_code milter_reply_encoder_encode_temporary_failure milter_reply_encoder_encode_reject "
        "milter_reply_encoder_encode_accept milter_reply_encoder_encode_discard encode_reply_header milter_reply_encoder_encode_add_header "
        "milter_reply_encoder_encode_insert_header milter_reply_encoder_encode_change_header milter_reply_encoder_encode_delete_header "
        "milter_reply_encoder_encode_change_from milter_reply_encoder_encode_add_recipient milter_reply_encoder_encode_delete_recipient "
        "milter_reply_encoder_encode_replace_body milter_reply_encoder_encode_progress milter_reply_encoder_encode_quarantine "
        "milter_reply_encoder_encode_connection_failure milter_reply_encoder_encode_shutdown milter_reply_encoder_encode_skip "
        "milter_encoder_pack milter_encoder_encode_negotiate milter_encoder_clear_buffer milter_utils_command_to_macro_stage",
    reply_decoder="decode decode_reply_negotiate decode_macros_requests decode_reply_continue decode_reply_reply_code "
        "find_space_character is_extended_code join_reply_lines decode_reply_temporary_failure decode_reply_reject decode_reply_accept decode_reply_discard "
        "decode_reply_add_header decode_header_content_with_index decode_reply_insert_header decode_reply_change_header "
        "decode_two_string decode_reply_change_from decode_reply_add_recipient decode_reply_add_recipient_with_parameters "
        "decode_reply_delete_recipient decode_reply_replace_body decode_reply_progress decode_reply_quarantine "
        "decode_reply_connection_failure decode_reply_shutdown decode_reply_skip milter_utils_macro_stage_to_command",
)

CH_REPLY = ("compile_reply_status remove_child_from_queue emit_reply_status_of_state emit_reply_for_message_oriented_command "
            "get_reply_status_for_state process_pending_message_request dispose_pending_message_request dispose_reply_related_data "
            "remove_child_in_command_waiting_child_queue get_first_child_in_command_waiting_child_queue status_to_signal_name "
            "milter_status_compare abort_all_children ")
FUNCS["children_reply"] = CH_REPLY + ("cb_stopped cb_continue cb_temporary_failure cb_reject cb_accept cb_discard cb_reply_code cb_error "
    "cb_reading_timeout cb_writing_timeout cb_end_of_message_timeout cb_finished fallback_child expire_child")
FUNCS["children_start"] = ("child_establish_connection retry_establish_connection cb_ready cb_connection_error cb_connection_timeout "
    "clear_try_negotiate_data remove_queue_in_negotiate prepare_retry_establish_connection prepare_negotiate negotiate_data_new "
    "negotiate_data_free setup_server_context_signals expire_child")
FUNCS["children_fanout"] = ("milter_manager_children_connect milter_manager_children_helo milter_manager_children_envelope_from "
    "milter_manager_children_envelope_recipient milter_manager_children_data milter_manager_children_unknown "
    "milter_manager_children_define_macro milter_manager_children_check_alive milter_manager_children_check_processing_message "
    "milter_manager_children_abort milter_manager_children_quit init_command_waiting_child_queue init_reply_queue queue_clear set_state "
    "dispose_reply_related_data dispose_message_related_reply_statuses dispose_message_related_data milter_manager_children_negotiate "
    "reply_negotiate cb_negotiate_reply remove_queue_in_negotiate check_fallback_status_on_negotiate expire_child "
    "milter_option_merge milter_step_flags_merge milter_option_remove_step")

FUNCS["children_feed"] = ("milter_manager_children_header milter_manager_children_end_of_header milter_manager_children_body "
    "milter_manager_children_end_of_message send_next_header_to_child send_body_to_child send_body_to_child_string send_body_to_child_file "
    "init_child_for_body init_child_for_body_string init_child_for_body_file send_command_to_child send_commands_to_child send_next_command "
    "get_next_command send_first_command_to_next_child fetch_first_command_for_child_in_queue write_body write_body_to_string "
    "write_body_to_file open_body_file need_header_value_leading_space_conversion need_data_commmand_emulation handle_status cb_continue "
    "cb_skip compile_reply_status pending_header_request_new pending_end_of_header_request_new pending_body_request_new "
    "pending_end_of_message_request_new pending_message_request_free dispose_pending_message_request set_state")

FUNCS["headers"] = ("milter_headers_add_header milter_headers_append_header milter_headers_insert_header milter_headers_change_header "
    "milter_headers_delete_header milter_headers_remove milter_headers_find milter_headers_lookup_by_name "
    "milter_headers_lookup_by_name_with_index milter_headers_index_in_same_header_name milter_headers_copy milter_headers_get_nth_header "
    "milter_headers_length milter_header_new milter_header_free milter_header_compare milter_header_equal milter_header_change_value "
    "milter_header_name_compare header_name_equal string_equal milter_utils_strcmp0")
FUNCS["children_modify"] = "cb_add_header cb_insert_header cb_change_header cb_delete_header cb_change_from cb_add_recipient cb_delete_recipient cb_quarantine cb_progress is_end_of_message_state is_evaluation_mode normalize_header_value need_header_value_leading_space_conversion ensure_command emit_signals_on_end_of_message"
FUNCS["children_headers"] = "emit_header_signals get_index_in_same_header_name compare_header_name milter_headers_get_list milter_headers_copy milter_header_compare"
FUNCS["children_body"] = "cb_replace_body write_body write_body_to_string write_body_to_file open_body_file dispose_body_related_data ensure_command is_end_of_message_state is_evaluation_mode emit_replace_body_signal emit_replace_body_signal_string emit_replace_body_signal_file"
FUNCS["server_connect"] = ("milter_server_context_establish_connection connect_watch_func cb_connection_timeout prepare_reader prepare_writer "
                           "dispose_connect_watch dispose_client_channel disable_timeout milter_server_context_set_connection_spec")
FUNCS["server_request"] = ("milter_server_context_negotiate milter_server_context_connect milter_server_context_helo "
    "milter_server_context_envelope_from milter_server_context_envelope_recipient milter_server_context_data milter_server_context_unknown "
    "milter_server_context_header milter_server_context_end_of_header milter_server_context_body milter_server_context_end_of_message "
    "milter_server_context_quit milter_server_context_abort write_packet is_flushing_command_without_reply prepend_macro filter_macros "
    "flush_body append_body_response_queue increment_process_body_count process_next_state process_next_state_body continue_without_reply "
    "flushed stop_on_state emit_message_processed_signal milter_server_context_need_reply milter_server_context_is_enable_step "
    "milter_server_context_set_state milter_server_context_reset_message_related_data disable_timeout reset_end_of_message_timeout "
    "ensure_message_result dispose_message_result cb_writing_timeout cb_reading_timeout cb_end_of_message_timeout stop_on_accumulator")
FUNCS["server_reply"] = ("cb_decoder_negotiate_reply cb_decoder_continue cb_decoder_reply_code cb_decoder_temporary_failure cb_decoder_reject "
    "cb_decoder_accept cb_decoder_discard cb_decoder_add_header cb_decoder_insert_header cb_decoder_change_header cb_decoder_delete_header "
    "cb_decoder_change_from cb_decoder_add_recipient cb_decoder_delete_recipient cb_decoder_replace_body cb_decoder_progress "
    "cb_decoder_quarantine cb_decoder_connection_failure cb_decoder_shutdown cb_decoder_skip decoder_new encoder_new invalid_state "
    "check_reply_after_quit decrement_process_body_count clear_process_body_count emit_message_processed_signal disable_timeout "
    "reset_end_of_message_timeout flush_body write_packet ensure_message_result")

FUNCS["client_context"] = ("cb_decoder_negotiate cb_decoder_define_macro cb_decoder_connect cb_decoder_helo cb_decoder_envelope_from "
    "cb_decoder_envelope_recipient cb_decoder_data cb_decoder_unknown cb_decoder_header cb_decoder_end_of_header cb_decoder_body "
    "cb_decoder_end_of_message cb_decoder_quit cb_decoder_abort decoder_new status_accumulator reply create_reply_packet write_packet "
    "write_packet_on_end_of_message negotiate_response connect_response helo_response envelope_from_response envelope_recipient_response "
    "data_response unknown_response header_response end_of_header_response body_response end_of_message_response abort_response "
    "milter_client_context_add_header milter_client_context_insert_header milter_client_context_change_header "
    "milter_client_context_delete_header milter_client_context_change_from milter_client_context_add_recipient "
    "milter_client_context_delete_recipient milter_client_context_replace_body milter_client_context_progress "
    "milter_client_context_quarantine milter_client_context_set_reply milter_client_context_reset_reply cb_timeout disable_timeout "
    "ensure_message_result dispose_message_result milter_client_context_reset_message_related_data milter_client_context_set_option flush")
FUNCS["leader"] = ("milter_manager_leader_negotiate milter_manager_leader_connect milter_manager_leader_helo milter_manager_leader_envelope_from "
    "milter_manager_leader_envelope_recipient milter_manager_leader_data milter_manager_leader_unknown milter_manager_leader_header "
    "milter_manager_leader_end_of_header milter_manager_leader_body milter_manager_leader_end_of_message milter_manager_leader_quit "
    "milter_manager_leader_abort milter_manager_leader_define_macro milter_manager_leader_timeout milter_manager_leader_check_connection "
    "setup_children_signals reply next_state state_to_response_signal_name is_replied_state cb_negotiate_reply cb_continue cb_reply_code "
    "cb_temporary_failure cb_reject cb_accept cb_discard cb_skip cb_add_header cb_insert_header cb_change_header cb_delete_header "
    "cb_change_from cb_add_recipient cb_delete_recipient cb_replace_body cb_progress cb_quarantine cb_abort cb_error cb_finished finished")
FUNCS["option"] = ("milter_option_new milter_option_new_empty milter_option_copy milter_option_equal milter_option_get_version milter_option_set_version "
    "milter_option_get_action milter_option_set_action milter_option_add_action milter_option_remove_action milter_option_get_step "
    "milter_option_get_step_no_event milter_option_get_step_no_reply milter_option_get_step_no milter_option_get_step_yes milter_option_set_step "
    "milter_option_add_step milter_option_remove_step milter_option_combine milter_option_merge milter_step_flags_merge milter_option_init set_property get_property")
FUNCS["egg"] = ("milter_manager_egg_hatch hatch milter_manager_egg_merge milter_manager_egg_attach_applicable_conditions milter_manager_egg_add_applicable_condition "
    "milter_manager_egg_clear_applicable_conditions milter_manager_egg_get_applicable_conditions milter_manager_egg_is_enabled milter_manager_egg_is_evaluation_mode "
    + " ".join("milter_manager_egg_%s_%s" % (a, b) for a in ("get", "set") for b in "name description connection_spec connection_timeout writing_timeout reading_timeout "
    "end_of_message_timeout user_name command command_options fallback_status".split()) + " milter_manager_egg_set_enabled milter_manager_egg_set_evaluation_mode")
FUNCS["configuration"] = ("milter_manager_configuration_setup_children " + " ".join("milter_manager_configuration_%s" % (f % x) for x in ("egg", "applicable_condition")
    for f in ("add_%s", "find_%s", "remove_%s_by_name", "clear_%ss", "get_%ss"))
    + " milter_manager_configuration_get_chunk_size milter_manager_configuration_set_chunk_size")
FUNCS["settings"] = ("set_property get_property milter_manager_child_class_init milter_server_context_class_init milter_manager_egg_class_init milter_manager_child_get_user_name "
    "milter_manager_child_get_fallback_status milter_manager_child_is_evaluation_mode milter_manager_child_set_evaluation_mode milter_server_context_set_name "
    "milter_manager_applicable_condition_class_init milter_manager_applicable_condition_merge milter_manager_applicable_condition_attach_to "
    + " ".join("milter_manager_applicable_condition_%s_%s" % (a, b) for a in ("get", "set") for b in "name description data".split())
    + " milter_manager_configuration_class_init milter_manager_configuration_get_connection_check_interval milter_manager_configuration_get_controller_connection_spec milter_manager_configuration_get_controller_unix_socket_group milter_manager_configuration_get_controller_unix_socket_mode milter_manager_configuration_get_custom_configuration_directory milter_manager_configuration_get_default_packet_buffer_size milter_manager_configuration_get_effective_group milter_manager_configuration_get_effective_user milter_manager_configuration_get_event_loop_backend milter_manager_configuration_get_fallback_status milter_manager_configuration_get_fallback_status_at_disconnect milter_manager_configuration_get_maintenance_interval milter_manager_configuration_get_manager_connection_spec milter_manager_configuration_get_manager_unix_socket_group milter_manager_configuration_get_manager_unix_socket_mode milter_manager_configuration_get_max_connections milter_manager_configuration_get_max_file_descriptors milter_manager_configuration_get_max_pending_finished_sessions milter_manager_configuration_get_n_workers milter_manager_configuration_get_package_options milter_manager_configuration_get_package_platform milter_manager_configuration_get_pid_file milter_manager_configuration_get_suspend_time_on_unacceptable milter_manager_configuration_get_syslog_facility milter_manager_configuration_get_use_syslog milter_manager_configuration_is_daemon milter_manager_configuration_is_privilege_mode milter_manager_configuration_is_remove_controller_unix_socket_on_close milter_manager_configuration_is_remove_controller_unix_socket_on_create milter_manager_configuration_is_remove_manager_unix_socket_on_close milter_manager_configuration_is_remove_manager_unix_socket_on_create milter_manager_configuration_set_connection_check_interval milter_manager_configuration_set_controller_connection_spec milter_manager_configuration_set_controller_unix_socket_group milter_manager_configuration_set_controller_unix_socket_mode milter_manager_configuration_set_custom_configuration_directory milter_manager_configuration_set_daemon milter_manager_configuration_set_default_packet_buffer_size milter_manager_configuration_set_effective_group milter_manager_configuration_set_effective_user milter_manager_configuration_set_event_loop_backend milter_manager_configuration_set_fallback_status milter_manager_configuration_set_fallback_status_at_disconnect milter_manager_configuration_set_maintenance_interval milter_manager_configuration_set_manager_connection_spec milter_manager_configuration_set_manager_unix_socket_group milter_manager_configuration_set_manager_unix_socket_mode milter_manager_configuration_set_max_connections milter_manager_configuration_set_max_file_descriptors milter_manager_configuration_set_max_pending_finished_sessions milter_manager_configuration_set_n_workers milter_manager_configuration_set_package_options milter_manager_configuration_set_package_platform milter_manager_configuration_set_pid_file milter_manager_configuration_set_privilege_mode milter_manager_configuration_set_remove_controller_unix_socket_on_close milter_manager_configuration_set_remove_controller_unix_socket_on_create milter_manager_configuration_set_remove_manager_unix_socket_on_close milter_manager_configuration_set_remove_manager_unix_socket_on_create milter_manager_configuration_set_suspend_time_on_unacceptable milter_manager_configuration_set_syslog_facility milter_manager_configuration_set_use_syslog")
FUNCS["macros_requests"] = "milter_macros_requests_set_symbols_string_array milter_macros_requests_get_symbols milter_macros_requests_merge merge_requests milter_macros_requests_foreach milter_macros_requests_foreach_body"
FUNCS["protocol_agent"] = ("milter_protocol_agent_get_macro milter_protocol_agent_get_available_macros milter_protocol_agent_get_macros "
    "milter_protocol_agent_clear_macros milter_protocol_agent_clear_message_related_macros milter_protocol_agent_set_macro_context "
    "milter_protocol_agent_set_macros milter_protocol_agent_set_macros_valist milter_protocol_agent_set_macro milter_protocol_agent_set_macros_hash_table "
    "ensure_macros update_macro cb_copy_macro clear_available_macros milter_utils_merge_hash_string_string")
FUNCS["writer"] = ("milter_writer_write milter_writer_flush milter_writer_start milter_writer_is_watching milter_writer_shutdown write_watch_func "
    "flush_watch_func request_flush error_watch_func watch_io_channel flush_buffer_on_shutdown clear_watch_id clear_write_watch_id clear_flush_watch_id milter_writer_init")
FUNCS["agent"] = ("milter_agent_write_packet milter_agent_flush cb_reader_flow cb_reader_error cb_reader_finished cb_writer_flushed cb_writer_error "
                  "cb_writer_finished milter_agent_set_reader milter_agent_set_writer milter_agent_start milter_agent_shutdown milter_agent_init")
FUNCS["libmilter"] = ("cb_negotiate cb_connect cb_helo cb_envelope_from cb_envelope_recipient cb_data cb_unknown cb_header cb_end_of_header cb_body "
                      "cb_end_of_message cb_abort cb_finished cb_connection_established smfi_context_set_client_context smfi_context_attach_to_client_context "
                      "smfi_context_detach_from_client_context setup_milter_client smfi_register smfi_setconn smfi_opensocket smfi_main smfi_setbacklog smfi_settimeout "
                      "smfi_stop smfi_version smfi_setsymlist smfi_getsymval smfi_setreply smfi_setmlreply smfi_addheader smfi_chgheader smfi_insheader "
                      "smfi_chgfrom smfi_addrcpt smfi_addrcpt_par smfi_delrcpt smfi_progress smfi_replacebody smfi_quarantine smfi_getpriv smfi_setpriv "
                      "libmilter_compatible_convert_status_to libmilter_compatible_convert_status_from libmilter_compatible_reset")
FUNCS["reader"] = ("read_from_channel read_watch_func error_watch_func finish clear_watch_id watch_io_channel milter_reader_start milter_reader_is_watching milter_reader_shutdown milter_reader_init")
FUNCS["reply_text"] = "milter_utils_format_reply_code"
TRUSTED = [
    "C semantics as CBMC 6.11 gives them to the preprocessed sources (x86-64, LP64); gcc compiles the same sources to the same meaning",
    "lib/vp_model.c, lib/vp_containers.c, lib/vp_gobject.c: executable contracts assumed for GLib/GObject/libc (GString, GList, GHashTable, "
    "GError, signals, type registration, string functions); allocation never fails",
    "sizes and string lengths range over [0, 2^28]",
    "logging (milter_logger*, g_log) and property registration have no effect on the contracts",
    "CaDiCaL's answers (no proof certificate is checked)",
]
CH_TRUST = ["each milter is a record of what the real MilterServerContext/MilterManagerChild accessors report; what they do with a request is specified in the server context contracts",
            "calls replaced by the contract of the callee in A: " + CALLS]
SC_TRUST = ["encoder, writer, event loop, options and message result are ghosts that record what they are given; encoding is specified by C01/C02; "
            "the encoder takes at most 65535 bytes of a body (C01)",
            "replaced by its contract (case macros) in A: prepend_macro",
            "at most two commands are waiting to be sent when a request starts; the body answers awaited are none or one",
            "a handler of a reply may start the next timeout; it does not change the state of the milter it is told about"]
EXTRA_TRUST = {
    "C06": ["g_hash_table_foreach calls for every entry, g_list_find_custom finds what compares equal (g_utf8_collate: equal texts), g_list_append appends",
            "GObject hands the properties given to g_object_new to set_property"],
    "C11": ["macros are kept by name and names only compared: two arbitrary names stand for all of them",
            "hash tables keep one value per key and call for every entry once; texts are copied by g_strdup"],
    "C17": ["the packets themselves are what C02 proves of the encoder; here a packet is a name",
            "a write that fails says why (milter_agent_write_packet sets its error)",
            "the milters behind the leader answer a command at most once before they return (C08, C10)",
            "the MTA waits for the answer to a command before it sends the next one, except that the end of the message may follow an open body",
            "atoi, isdigit, g_strsplit, printf of %u and %s do what their documentation says"],
    "C18": ["a channel does what GIOChannel documents: with an error nothing was read or written, a write takes any part of what it is given, a read gives any "
            "part of what it is asked for and at least one byte if it succeeds",
            "the event loop calls a watch only while it is there; the owner of a reader or writer drops it at most once",
            "nothing is written by the owner from within a report of an error or of the end"],
    "C19": ["the session asked (milter_client_context_*) is what C15 to C17 prove of it, here each request is a name; texts are told by where they are",
            "g_strsplit, g_strdup, g_strdup_printf, g_memdup and atoi do what they document",
            "callbacks are emitted by the session as its signals say (C17)"],
    "C20": ["GObject hands each property given by name to set_property of the class that installed it",
            "texts are told by where they are; g_strdup copies, the address parser accepts or refuses",
            "g_list_append appends, g_list_delete_link removes that element (A)", "the configuration language (Ruby) calls these functions as written"],
    "C15": SC_TRUST, "C16": SC_TRUST,
    "C08": CH_TRUST, "C12": CH_TRUST, "C14": CH_TRUST + SC_TRUST, "C10": CH_TRUST + ["replaced by their contracts in A: " + ALIVE + " child_establish_connection:gh_establish"],
    "C07": ["g_list_insert_before, g_list_append, g_list_insert, g_list_remove, g_list_find_custom do what GLib documents (A); names and values are compared "
            "and copied as a whole: texts of one arbitrary character stand for all texts"],
    "C09": CH_TRUST[:1] + ["the header list does what C07 proves of it; body and temporary file are as in C13",
            "the header differences (emit_header_signals) are checked bounded only",
            "one arbitrary character stands for all header names and values in the header differences"],
    "C13": CH_TRUST[:1] + ["replaced by the contracts of C08/C10 in A: " + FEED,
            "writing to a milter and to the temporary body file succeeds; the file is a sequence of bytes with a position",
            "between two steps the milter's state is the position reached",
            "in A the queue has at most two visible waiting milters and an unread rest (only the first two are ever looked at)"],
    "C05": ["the contracts of milter-decoder.c used here are discharged separately (C03)",
            "g_strsplit and the macro request object are named by the text they are given"],
    "C04": ["inet_pton is a function of its text (its result is arbitrary)",
            "the contracts of milter-decoder.c used here are discharged separately (C03)"],
}


def trusted_base(prop):
    return TRUSTED + EXTRA_TRUST.get(prop, [])


def level_note(prop):
    return NOTES.get(prop, "") + ("Obligations are discharged for all inputs (sizes up to 2^28) by CBMC on the real functions; GLib/GObject/libc are "
            "represented by assumed executable contracts; cases listed as bounded in the evidence are not counted as proved.")


NOTES = {}
