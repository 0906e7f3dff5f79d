// Accounting for every block the code under test allocates; needs the wrap flags of the Makefile.
#pragma once
#include "common.hpp"

extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
static const size_t CAP = 1 << 21;
static void** g_ptr;
static size_t* g_seq;
static size_t* g_size;
static long g_live;
static size_t g_count;
static size_t slot_of(void* p)
{
    size_t h = (size_t)(((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull) >> 43;
    while(g_ptr[h] && g_ptr[h] != p) h = (h + 1) & (CAP - 1);
    return h;
}
static void born(void* p, size_t n)
{
    if(!p) return;
    if(!g_ptr) {
        g_ptr = (void**)__real_calloc(CAP, sizeof(void*));
        g_seq = (size_t*)__real_calloc(CAP, sizeof(size_t));
        g_size = (size_t*)__real_calloc(CAP, sizeof(size_t));
    }
    g_live++;
    if(g_live > (long)CAP / 2) return; // only the count matters then
    size_t h = slot_of(p);
    g_ptr[h] = p;
    g_seq[h] = ++g_count;
    g_size[h] = n;
}
static void gone(void* p)
{
    if(!p) return;
    g_live--;
    if(!g_ptr) return;
    size_t h = slot_of(p);
    if(!g_ptr[h]) return;
    // backward shift deletion
    size_t i = h, j = h;
    for(;;) {
        g_ptr[i] = nullptr;
        for(;;) {
            j = (j + 1) & (CAP - 1);
            if(!g_ptr[j]) return;
            size_t k = (size_t)(((uintptr_t)g_ptr[j] >> 4) * 0x9e3779b97f4a7c15ull) >> 43;
            if(i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
            break;
        }
        g_ptr[i] = g_ptr[j];
        g_seq[i] = g_seq[j];
        g_size[i] = g_size[j];
        i = j;
    }
}
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); born(p, n); return p; }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); born(p, a * b); return p; }
void* __wrap_realloc(void* p, size_t n)
{
    void* r = __real_realloc(p, n);
    if(r || n == 0) gone(p);
    born(r, n);
    return r;
}
void __wrap_free(void* p) { gone(p); __real_free(p); }
}
struct Balance {
    long live = g_live;
    size_t seq = g_count;
    // description of what was allocated since and is still there
    std::string left() const
    {
        std::string r = std::to_string(g_live - live) + " blocks are still allocated:";
        int n = 0;
        if(g_ptr)
            for(size_t i = 0; i < CAP && n < 4; i++)
                if(g_ptr[i] && g_seq[i] > seq) {
                    r += " [" + std::to_string(g_size[i]) + " bytes";
                    const char* c = (const char*)g_ptr[i];
                    size_t k = 0;
                    while(k < g_size[i] && c[k] >= 32 && c[k] < 127) k++;
                    if(k >= 1 && k < g_size[i] && !c[k]) r += " \"" + std::string(c, k) + "\"";
                    r += "]";
                    n++;
                }
        return r;
    }
    void check(eng::Ctx& x, const std::string& what) const { x.checks++; if(g_live != live) x.fail(what + ": " + left()); }
};
