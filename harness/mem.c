#include "vf.h"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_mem_block.h"
#include "virg/nexus/nx_keypoint_vector.h"
#ifndef N
#define N 4
#endif
/* A block in an arbitrary valid state (never used, owning, or wrapping caller memory) together
 * with a shadow of what the user put there. */
struct sh { size_t size; unsigned char c[N + 1]; int def[N + 1]; };
static unsigned char user_mem[2][N + 1];
static struct NXMemBlock *mk(int k, struct sh *s)
{
        struct NXMemBlock *m = nx_mem_block_alloc();
        int kind = vf_i("kind", 0, 2);
        s->size = 0;
        for (int i = 0; i <= N; ++i) { s->c[i] = 0; s->def[i] = 0; }
        if (kind == 0) { VF_ASSERT(m->size == 0, "a new block is empty"); return m; }
        int cap = vf_i("cap", 1, N), sz = vf_i("size", 0, N);
        VF_ASSUME(sz <= cap);
        unsigned char *p = kind == 1 ? (unsigned char *)nx_xmalloc(cap) : user_mem[k];
        for (int i = 0; i < N; ++i) if (i < cap) { unsigned char b = vf_u8("c"); p[i] = b; if (i < sz) { s->c[i] = b; s->def[i] = 1; } }
        s->size = sz;
        void *q = nx_mem_block_wrap(m, p, sz, cap, kind == 1);
        VF_ASSERT(q == p && m->ptr == p, "wrap hands out the wrapped memory");
        return m;
}
static void chk(struct NXMemBlock *m, struct sh *s)
{
        VF_ASSERT(m->size == s->size, "size is what was requested");
        VF_ASSERT(m->capacity >= m->size, "capacity covers size");
        unsigned char *p = m->ptr;
        for (size_t i = 0; i < N; ++i) {
                if (i < m->capacity) VF_READABLE(p + i, 1);
                if (i < s->size && s->def[i]) VF_ASSERT(p[i] == s->c[i], "contents preserved");
        }
}
static void setsize(struct sh *s, size_t n) { for (size_t i = 0; i <= N; ++i) if (i >= n) s->def[i] = 0; s->size = n; }
static void step(struct NXMemBlock *a, struct sh *sa, struct NXMemBlock *b, struct sh *sb)
{
        int op = vf_i("op", 0, 6);
        size_t n = (size_t)vf_i("n", 0, N), cap0 = a->capacity;
        if (op == 0) { void *p = nx_mem_block_reserve(a, n); VF_ASSERT(p == a->ptr, "reserve returns the memory"); VF_ASSERT(a->capacity >= n && a->capacity >= cap0, "reserve never shrinks"); }
        else if (op == 1) { void *p = nx_mem_block_resize(a, n); VF_ASSERT(p == a->ptr, "resize returns the memory"); setsize(sa, n); }
        else if (op == 2) { nx_mem_block_swap(a, b); struct sh t = *sa; *sa = *sb; *sb = t; }
        else if (op == 3) { nx_mem_block_copy(a, b); *sa = *sb; VF_ASSERT(b->size == 0 || a->ptr != b->ptr, "a copy does not share memory"); }
        else if (op == 4) { nx_mem_block_release(a); setsize(sa, 0); VF_ASSERT(a->ptr == NULL && a->capacity == 0, "released block is empty"); }
        else if (op == 5) { nx_mem_block_set_zero(a); for (size_t i = 0; i < N; ++i) if (i < sa->size) { sa->c[i] = 0; sa->def[i] = 1; } }
        else if (n < a->size) { unsigned char v = vf_u8("v"); ((unsigned char *)a->ptr)[n] = v; sa->c[n] = v; sa->def[n] = 1; }
}
void mem_block_steps(void)
{
        struct sh sa, sb;
        struct NXMemBlock *a = mk(0, &sa), *b = mk(1, &sb);
        chk(a, &sa); chk(b, &sb);
        for (int k = 0; k < STEPS; ++k) { step(a, &sa, b, &sb); chk(a, &sa); chk(b, &sb); }
        VF_COVER("steps done");
        nx_mem_block_free(a);
        chk(b, &sb);                     /* freeing one block leaves the other intact */
        nx_mem_block_free(b);
        nx_mem_block_free(NULL);
        for (int i = 0; i < N; ++i) VF_READABLE(&user_mem[0][i], 1);
}
/* growing a block that wraps caller memory leaves the caller's bytes alone */
void mem_block_unowned(void)
{
        unsigned char *p = malloc(N), keep[N];
        for (int i = 0; i < N; ++i) keep[i] = p[i] = vf_u8("c");
        int sz = vf_i("sz", 0, N), n = vf_i("n", N + 1, N + 2);
        struct NXMemBlock *m = nx_mem_block_alloc();
        nx_mem_block_wrap(m, p, sz, N, NX_FALSE);
        if (vf_i("rs", 0, 1)) nx_mem_block_resize(m, n); else nx_mem_block_reserve(m, n);
        VF_ASSERT(m->ptr != p, "memory the caller owns is replaced, not reallocated");
        for (int i = 0; i < N + 1; ++i) ((unsigned char *)m->ptr)[i] = i < sz ? ((unsigned char *)m->ptr)[i] : 7;
        for (int i = 0; i < N; ++i) VF_ASSERT(p[i] == keep[i], "caller memory untouched after growth");
        for (int i = 0; i < N; ++i) if (i < sz) VF_ASSERT(((unsigned char *)m->ptr)[i] == keep[i], "contents carried over");
        struct NXMemBlock *c = nx_mem_block_copy0(m);
        VF_ASSERT(c->size == m->size, "copy has the same size");
        for (int i = 0; i < N; ++i) if (i < sz && (size_t)i < c->size) VF_ASSERT(((unsigned char *)c->ptr)[i] == keep[i], "copy has the same contents");
        nx_mem_block_free(m);
        for (int i = 0; i < N; ++i) if (i < sz && (size_t)i < c->size) VF_ASSERT(((unsigned char *)c->ptr)[i] == keep[i], "copy survives its source");
        nx_mem_block_free(c);
        VF_COVER("freed");
        free(p);
}
/* typed vector built on the block */
void kp_vector(void)
{
        struct NXKeypointVector *v = vf_i("new", 0, 1) ? nx_keypoint_vector_new(vf_i("cap", 0, 2)) : nx_keypoint_vector_alloc();
        VF_ASSERT(v->size == 0, "a new vector is empty");
        uint64_t ids[PUSH];
        size_t want = 0;
        for (int i = 0; i < PUSH; ++i) {
                int op = vf_i("op", 0, 3);
                if (op <= 1) {
                        struct NXKeypoint *k = nx_keypoint_vector_push_back(v);
                        uint64_t id = vf_u64("id");
                        k->id = id; ids[want++] = id;
                        VF_ASSERT(k == v->data + (want - 1), "push_back returns the new last element");
                } else if (op == 2) nx_keypoint_vector_reserve(v, (size_t)vf_i("r", 0, PUSH));
                else { nx_keypoint_vector_clear(v); want = 0; }
                VF_ASSERT(v->size == want, "vector size counts the elements");
                VF_ASSERT(v->capacity >= v->size, "vector capacity covers size");
                for (size_t j = 0; j < PUSH; ++j) if (j < want) VF_ASSERT(v->data[j].id == ids[j], "elements keep their values and order");
        }
        struct NXKeypointVector *c = nx_keypoint_vector_copy0(v);
        VF_ASSERT(c->size == want, "copied vector has the same size");
        for (size_t j = 0; j < PUSH; ++j) if (j < want) VF_ASSERT(c->data[j].id == ids[j], "copied vector has the same elements");
        nx_keypoint_vector_free(v);
        for (size_t j = 0; j < PUSH; ++j) if (j < want) VF_ASSERT(c->data[j].id == ids[j], "copy survives its source");
        VF_COVER("vector");
        nx_keypoint_vector_free(c);
}
