#include <glib.h>
void vp_cut_nth(int *phase, GList **node, guint *count);
void vp_cut_index(int *phase, GList **node, guint *count);
void vp_cut_add(int *phase, GList **node, GList **found);
void vp_cut_copy(int *phase, GList **node);
#define VP_CUT_milter_headers_copy_0 vp_cut_copy(&vp_ph0, &node)
#define VP_CUT_milter_headers_index_in_same_header_name_0 vp_cut_index(&vp_ph0, &node, &found_count)
#define VP_CUT_milter_headers_add_header_0 vp_cut_add(&vp_ph0, &node, &same_name_header)
#define VP_CUT_milter_headers_lookup_by_name_with_index_0 vp_cut_nth(&vp_ph0, &node, &found_count)
