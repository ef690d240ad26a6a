/* This unit allocates nothing: reaching the allocator leaves it undecided. */
#ifndef VF_NATIVE
void *malloc(size_t m) { BOUND(false); return NULL; }
void *calloc(size_t n, size_t m) { BOUND(false); return NULL; }
void *realloc(void *p, size_t m) { BOUND(false); return NULL; }
void free(void *p) { BOUND(false); }
#endif
