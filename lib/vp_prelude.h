/* Force-included before every translation unit under contract. */
#define HAVE_CONFIG_H 1
#define G_DISABLE_CAST_CHECKS 1
#define G_DISABLE_ASSERT_MESSAGES 1
#define MILTER_LOG_DOMAIN "milter"
#ifdef VP_CHUNK            /* bounded runs shrink the body chunk limit */
#  include <milter/core/milter-protocol.h>
#  undef MILTER_CHUNK_SIZE
#  define MILTER_CHUNK_SIZE VP_CHUNK
#endif
#ifndef VP_N
#  include <glib.h>
#  include <glib-object.h>
/* use the contract of the out-of-line functions, not the inline copies */
#  undef g_string_append_c
#  undef g_string_append
#  undef g_string_append_len
#  undef g_string_truncate
#  undef g_string_free
#  undef g_strdup
#  undef g_str_has_prefix
#  undef g_str_has_suffix
#  undef g_strcmp0
#  undef g_str_equal
#  undef g_clear_pointer
#  define g_clear_pointer(pp, destroy) \
     do { gpointer *_vp_pp = (gpointer *)(pp); gpointer _vp_p = *_vp_pp; \
          *_vp_pp = NULL; if (_vp_p) (destroy)(_vp_p); } while (0)
#  undef g_clear_object
#  define g_clear_object(pp) \
     do { gpointer *_vp_pp = (gpointer *)(pp); gpointer _vp_p = *_vp_pp; \
          *_vp_pp = NULL; if (_vp_p) g_object_unref(_vp_p); } while (0)
#  undef g_object_ref
#  undef g_new
#  undef g_new0
#  include <stdlib.h>
#  define g_new(T, n) ((T *)malloc(sizeof(T) * (n)))
#  define g_new0(T, n) ((T *)calloc((n), sizeof(T)))
#  undef g_slice_new
#  undef g_slice_new0
#  define g_slice_new(T) ((T *)malloc(sizeof(T)))
#  define g_slice_new0(T) ((T *)calloc(1, sizeof(T)))
#  undef g_slice_free
#  define g_slice_free(T, p) g_free(p)
#endif
