#include <glib.h>
void vp_cut_symbols(int *phase, GList **symbols);
#define VP_CUT_encode_macros_request_0 vp_cut_symbols(&vp_ph0, &symbols)
