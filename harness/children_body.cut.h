#include <glib.h>
void vp_cut_string(int *phase, gsize *offset);
void vp_cut_file(int *phase, GIOStatus *status);
#ifdef CASE_emit_body
#define VP_CUT_emit_replace_body_signal_string_0 vp_cut_string(&vp_ph0, &offset)
#define VP_CUT_emit_replace_body_signal_file_0 vp_cut_file(&vp_ph0, &status)
#else
#define VP_CUT_emit_replace_body_signal_string_0 (void)0
#define VP_CUT_emit_replace_body_signal_file_0 (void)0
#endif
