#include <glib.h>
#ifdef VP_A
void vp_cut_dest(int *phase, GList **node, GList **copied);
void vp_cut_src(int *phase, GList **node, GList **copied);
void vp_cut_strings(int *phase, gint *i, GList **symbols);
#define VP_CUT_merge_requests_0 vp_cut_dest(&vp_ph0, &node, &copied_symbols)
#define VP_CUT_merge_requests_1 vp_cut_src(&vp_ph1, &node, &copied_symbols)
#define VP_CUT_milter_macros_requests_set_symbols_string_array_0 vp_cut_strings(&vp_ph0, &i, &symbols)
#else
#define VP_CUT_merge_requests_0 (void)vp_ph0
#define VP_CUT_merge_requests_1 (void)vp_ph1
#define VP_CUT_milter_macros_requests_set_symbols_string_array_0 (void)vp_ph0
#endif
