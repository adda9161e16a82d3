// Force-included into the proxy library's sources: the C library functions it
// replaces get names of their own, so that the simulator keeps the real ones.
#pragma once
#define malloc px_malloc
#define calloc px_calloc
#define realloc px_realloc
#define free px_free
#define aligned_alloc px_aligned_alloc
#define malloc_usable_size px_malloc_usable_size
