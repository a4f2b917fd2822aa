#include <glib.h>
#include <milter/core/milter-protocol.h>
void vp_cut_collect(int *phase, GList **node);
void vp_cut_send(int *phase, GList **node, gboolean *success);
void vp_cut_count(int *phase, GList **node);
void vp_cut_macro(int *phase, GList **node);
void vp_cut_exists(int *phase, GList **node);
void vp_cut_abort(int *phase, GList **node);
void vp_cut_reset(int *phase, GList **node);
void vp_cut_quit(int *phase, GList **node);
void vp_cut_waiting(int *phase, GList **node);
void vp_cut_neg_queue(int *phase, GList **node);
void vp_cut_neg_connect(int *phase, GList **node);
void vp_cut_fb_max(int *phase, GList **node, MilterStatus *status);
void vp_cut_fb_expire(int *phase, GList **node);
#define VP_CUT_milter_manager_children_connect_0 vp_cut_collect(&vp_ph0, &child)
#define VP_CUT_milter_manager_children_connect_1 vp_cut_send(&vp_ph1, &child, &success)
#define VP_CUT_milter_manager_children_connect_2 vp_cut_count(&vp_ph2, &child)
#define VP_CUT_milter_manager_children_helo_0 vp_cut_collect(&vp_ph0, &child)
#define VP_CUT_milter_manager_children_helo_1 vp_cut_send(&vp_ph1, &child, &success)
#define VP_CUT_milter_manager_children_helo_2 vp_cut_count(&vp_ph2, &child)
#define VP_CUT_milter_manager_children_envelope_from_0 vp_cut_collect(&vp_ph0, &child)
#define VP_CUT_milter_manager_children_envelope_from_1 vp_cut_send(&vp_ph1, &child, &success)
#define VP_CUT_milter_manager_children_envelope_from_2 vp_cut_count(&vp_ph2, &child)
#define VP_CUT_milter_manager_children_envelope_recipient_0 vp_cut_collect(&vp_ph0, &child)
#define VP_CUT_milter_manager_children_envelope_recipient_1 vp_cut_send(&vp_ph1, &child, &success)
#define VP_CUT_milter_manager_children_envelope_recipient_2 vp_cut_count(&vp_ph2, &child)
#define VP_CUT_milter_manager_children_data_0 vp_cut_collect(&vp_ph0, &child)
#define VP_CUT_milter_manager_children_data_1 vp_cut_send(&vp_ph1, &child, &success)
#define VP_CUT_milter_manager_children_data_2 vp_cut_count(&vp_ph2, &child)
#define VP_CUT_milter_manager_children_unknown_0 vp_cut_collect(&vp_ph0, &child)
#define VP_CUT_milter_manager_children_unknown_1 vp_cut_send(&vp_ph1, &child, &success)
#define VP_CUT_milter_manager_children_unknown_2 vp_cut_count(&vp_ph2, &child)
#define VP_CUT_milter_manager_children_define_macro_0 vp_cut_macro(&vp_ph0, &node)
#define VP_CUT_milter_manager_children_check_alive_0 vp_cut_exists(&vp_ph0, &node)
#define VP_CUT_milter_manager_children_check_processing_message_0 vp_cut_exists(&vp_ph0, &node)
#define VP_CUT_milter_manager_children_abort_0 vp_cut_abort(&vp_ph0, &child)
#define VP_CUT_milter_manager_children_abort_1 vp_cut_reset(&vp_ph1, &child)
#define VP_CUT_milter_manager_children_quit_0 vp_cut_quit(&vp_ph0, &child)
#define VP_CUT_init_command_waiting_child_queue_0 vp_cut_waiting(&vp_ph0, &node)
#define VP_CUT_milter_manager_children_negotiate_0 vp_cut_neg_queue(&vp_ph0, &node)
#define VP_CUT_milter_manager_children_negotiate_1 vp_cut_neg_connect(&vp_ph1, &node)
#define VP_CUT_check_fallback_status_on_negotiate_1 vp_cut_fb_expire(&vp_ph1, &node)
#define VP_CUT_check_fallback_status_on_negotiate_0 vp_cut_fb_max(&vp_ph0, &node, &status)
