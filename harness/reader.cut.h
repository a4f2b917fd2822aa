#ifdef VP_A
void vp_cut_read(int *phase, int *keep);
#define VP_CUT_read_watch_func_0 vp_cut_read(&vp_ph0, &keep_callback)
#define VP_CUT_error_watch_func_0 vp_cut_rest(&vp_ph0)
void vp_cut_rest(int *phase);
#else
#define VP_CUT_read_watch_func_0 (void)vp_ph0
#define VP_CUT_error_watch_func_0 (void)vp_ph0
#endif
