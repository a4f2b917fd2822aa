#include <glib.h>
#ifdef VP_A
void vp_cut_merge(int *phase, GList **node);
void vp_cut_attach(int *phase, GList **node);
#define VP_CUT_milter_manager_egg_merge_0 vp_cut_merge(&vp_ph0, (GList **)&node)
#define VP_CUT_milter_manager_egg_attach_applicable_conditions_0 vp_cut_attach(&vp_ph0, (GList **)&node)
#else
#define VP_CUT_milter_manager_egg_merge_0 (void)vp_ph0
#define VP_CUT_milter_manager_egg_attach_applicable_conditions_0 (void)vp_ph0
#endif
