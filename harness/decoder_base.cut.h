#include <glib.h>
void vp_cut_decode(int *phase, gboolean *loop, gboolean *success);
void vp_cut_find_null(int *phase, gint *i, gint length, const gchar *buffer);
void vp_cut_inspect(int *phase, gsize *i, gsize length);
#define VP_CUT_milter_decoder_decode_0 vp_cut_decode(&vp_ph0, &loop, &success)
#define VP_CUT_find_null_character_0 vp_cut_find_null(&vp_ph0, &i, length, buffer)
#define VP_CUT_append_inspected_bytes_0 vp_cut_inspect(&vp_ph0, &i, length)
