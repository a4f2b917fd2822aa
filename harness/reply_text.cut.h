#include <glib.h>
#ifdef VP_A
void vp_cut_format(int *phase, gchar ***messages);
#define VP_CUT_milter_utils_format_reply_code_0 vp_cut_format(&vp_ph0, &messages)
#else
#define VP_CUT_milter_utils_format_reply_code_0 (void)vp_ph0
#endif
