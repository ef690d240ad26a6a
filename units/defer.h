/* Deferred calls: an array of entries of any kinds, and the record of what ran.
 * The array operations are used through their contracts (proved under C05). */
#ifndef N
# define N 2
#endif
VF_INPUTS( int kind[6]; bool on; bool grd; bool own; bool locl; bool ptr; bool run; bool err; bool prot; int n0; void *data; )
enum { K_PTR, K_VALUE, K_MEM, K_ARRAY, K_OBJ, K_NULL };
static defer_t D0, D1, D2, D3, D4, D5, NEW;
static defer_t *const DD[6] = {&D0, &D1, &D2, &D3, &D4, &D5};
static data_object_t O0, O1, O2, O3, O4, O5;
static data_object_t *const OO[6] = {&O0, &O1, &O2, &O3, &O4, &O5};
static char M0[8], M1[8], M2[8], M3[8], M4[8], M5[8], ARG[6];
static char *const MM[6] = {M0, M1, M2, M3, M4, M5};
static values_t ARR[8]; static size_t asize; static bool alive;
static values_t NEWARR[8]; static size_t nsize; static int news;
static int todo = -1, ran, freed, unexpected, deletes;
/* the entries run from the last to the first; null entries are passed over */
static void next(int i, int kind) {
	while (todo >= 0 && IN.kind[todo] == K_NULL) todo--;
	if (i != todo || kind != IN.kind[i]) unexpected++;
}
static void *entry(int i) {
	return IN.kind[i] == K_NULL ? NULL : IN.kind[i] == K_OBJ ? (void *)OO[i] : IN.kind[i] == K_ARRAY || IN.kind[i] == K_MEM ? (void *)MM[i] : (void *)DD[i];
}
static int at(void *p) { int i; for (i = 0; i < N; i++) if (p && entry(i) == p) return i; return -1; }
static bool state[6];   /* a defer entry whose call has run */
static void call(void *arg) {
	int i = (int)((char *)arg - ARG);
	if (i < 0 || i >= N) { unexpected++; return; }
	next(i, K_PTR); ran++;
	if (state[i]) unexpected++;
	state[i] = true;
}
static void vcall(intptr_t v) {
	int i = (int)v - 100;
	if (i < 0 || i >= N) { unexpected++; return; }
	next(i, K_VALUE); ran++;
	if (state[i]) unexpected++;
	state[i] = true;
}
static void dtor(void *o) { int i = at(o); if (i < 0) { unexpected++; return; } next(i, K_OBJ); freed++; todo--; }
void vf_free(void *p) {
	int i = at(p);
	if (i < 0) { unexpected++; return; }
	if (IN.kind[i] == K_PTR || IN.kind[i] == K_VALUE) { if (!state[i]) unexpected++; next(i, IN.kind[i]); }
	else next(i, K_MEM);
	freed++; todo--;
}
bool vf_is_data(void *p) {
	int i = at(p);
	if (p == (void *)ARR) return alive;
	if (p == (void *)NEWARR) return news > 0;
	return i >= 0 && IN.kind[i] == K_ARRAY;
}
size_t vf_size(array_t a) { if (a == ARR) return asize; if (a == NEWARR) return nsize; unexpected++; return 0; }
void vf_delete(array_t a) {
	int i = at(a);
	deletes++;
	if (a == ARR) { while (todo >= 0 && IN.kind[todo] == K_NULL) todo--; if (!alive || todo >= 0) unexpected++; alive = false; return; }
	if (i < 0) { unexpected++; return; }
	next(i, K_ARRAY); freed++; todo--;
}
array_t vf_array(void) { news++; nsize = 0; return NEWARR; }
static int appends; static array_t appended_to;
void vf_append(array_t a, void *v) {
	appends++; appended_to = a;
	if (a == ARR) { BOUND(asize < 8); ARR[asize++].object = v; }
	else if (a == NEWARR) { BOUND(nsize < 8); NEWARR[nsize++].object = v; }
	else unexpected++;
}
static atomic_spinlock FLAG[1];
atomic_spinlock *vf_lock(array_t a) { return FLAG; }
#define UNLOCKED() CHECK(!atomic_flag_load((atomic_flag *)FLAG), "the lock is released")
#ifndef VF_NATIVE
bool is_ptr_usable(void *p) { return p != NULL; }
#endif
data_types vf_data_type(void *p) {
	int i = at(p);
	if (p == NULL) return DATA_INVALID;
	if (i < 0) { if (p == (void *)&NEW) return NEW.type; unexpected++; return DATA_INVALID; }
	return IN.kind[i] == K_OBJ ? OO[i]->type : IN.kind[i] == K_MEM ? DATA_INVALID : DD[i]->type;
}
static void entries(int n) {
	int i;
	alive = true; asize = n; todo = n - 1;
	for (i = 0; i < n; i++) {
		RANGE(IN.kind[i], 0, 5);
		DD[i]->type = DATA_DEFER; DD[i]->is_ptr = IN.kind[i] == K_PTR;
		if (DD[i]->is_ptr) { DD[i]->func = call; DD[i]->data = ARG + i; }
		else { DD[i]->_func = vcall; DD[i]->value = 100 + i; }
		OO[i]->type = IN.on ? DATA_OBJ : IN.own ? DATA_MAP : DATA_HASHTABLE; OO[i]->dtor = dtor;
		ARR[i].object = entry(i);
	}
}
static void all_done(void) {
	int i, calls = 0, frees = 0;
	for (i = 0; i < N; i++) { if (IN.kind[i] == K_PTR || IN.kind[i] == K_VALUE) calls++; if (IN.kind[i] != K_NULL) frees++; }
	while (todo >= 0 && IN.kind[todo] == K_NULL) todo--;
	CHECK(unexpected == 0, "unwind: last registered first, each with its own argument, nothing else run or released");
	CHECK(todo == -1 && ran == calls, "unwind: every deferred call runs exactly once");
	CHECK(freed == frees, "unwind: every allocation is released exactly once");
	CHECK(!alive, "unwind: the list is released");
}
