#include <glib.h>
void vp_cut_space(int *phase, gint *i, gint length, const gchar *buffer);
void vp_cut_requests(int *phase, gint *i, gsize length, const gchar *buffer, gboolean error_occurred);
#define VP_CUT_find_space_character_0 vp_cut_space(&vp_ph0, &i, length, buffer)
#define VP_CUT_decode_macros_requests_0 vp_cut_requests(&vp_ph0, &i, length, buffer, error_occurred)
#ifdef LINES
void vp_cut_lines(int *phase, const gchar **line);
#define VP_CUT_join_reply_lines_0 vp_cut_lines(&vp_ph0, &line)
#else
#define VP_CUT_join_reply_lines_0 (void)vp_ph0
#endif
