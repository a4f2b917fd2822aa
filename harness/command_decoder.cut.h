#include <glib.h>
void vp_cut_macros(int *phase, gint *i, gint length, const gchar *buffer, GHashTable *macros);
#define VP_CUT_decode_define_macros_0 vp_cut_macros(&vp_ph0, &i, length, buffer, macros)
