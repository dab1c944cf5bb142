// Included before every source of the race variant: memory functions are accesses too.
#ifdef __cplusplus
#include <cstring>
#else
#include <string.h>
#endif
#ifdef __cplusplus
extern "C" {
#endif
void *vrace_memcpy(void *, const void *, size_t);
void *vrace_memmove(void *, const void *, size_t);
void *vrace_memset(void *, int, size_t);
#ifdef __cplusplus
}
namespace std { using ::vrace_memcpy; using ::vrace_memmove; using ::vrace_memset; }
#endif
#define memcpy vrace_memcpy
#define memmove vrace_memmove
#define memset vrace_memset
