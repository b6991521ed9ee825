static int stream_case(const tcase *c) { (void)c; return 0; }
static void sgen(tcase *c, const fnent *f, const char *mode, uint64_t seed, int idx) { (void)mode; (void)seed; (void)idx; memset(c, 0, sizeof *c); c->f = f; c->p = findp(f->name); }
