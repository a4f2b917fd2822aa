#include <glib.h>
#if defined(CASE_replace_body)
void vp_cut_body(int *phase, gsize *rest);
#define VP_CUT_milter_client_context_replace_body_0 vp_cut_body(&vp_ph0, &rest_size)
#else
#define VP_CUT_milter_client_context_replace_body_0 (void)vp_ph0
#endif
