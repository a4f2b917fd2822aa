#include <glib.h>
#ifdef VP_A
void vp_cut_search(int *phase, GList **node);
void vp_cut_setup(int *phase, GList **node);
#define VP_CUT_milter_manager_configuration_find_egg_0 vp_cut_search(&vp_ph0, &node)
#define VP_CUT_milter_manager_configuration_remove_egg_by_name_0 vp_cut_search(&vp_ph0, &node)
#define VP_CUT_milter_manager_configuration_find_applicable_condition_0 vp_cut_search(&vp_ph0, &node)
#define VP_CUT_milter_manager_configuration_remove_applicable_condition_by_name_0 vp_cut_search(&vp_ph0, &node)
#define VP_CUT_milter_manager_configuration_setup_children_0 vp_cut_setup(&vp_ph0, &node)
#else
#define VP_CUT_milter_manager_configuration_find_egg_0 (void)vp_ph0
#define VP_CUT_milter_manager_configuration_remove_egg_by_name_0 (void)vp_ph0
#define VP_CUT_milter_manager_configuration_find_applicable_condition_0 (void)vp_ph0
#define VP_CUT_milter_manager_configuration_remove_applicable_condition_by_name_0 (void)vp_ph0
#define VP_CUT_milter_manager_configuration_setup_children_0 (void)vp_ph0
#endif
