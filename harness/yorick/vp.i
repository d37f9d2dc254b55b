extern vp_open;
extern vp_live;
extern vp_evals;
extern vp_log;
extern vp_f;
extern vp_g;
extern vp_c;
