#include <glib.h>
void vp_cut_flushed(int *phase, GList **node);
void vp_cut_filter(int *phase, GList **symbol);
#define VP_CUT_flushed_1 vp_cut_flushed(&vp_ph1, &node)
#define VP_CUT_filter_macros_0 vp_cut_filter(&vp_ph0, &symbol)
