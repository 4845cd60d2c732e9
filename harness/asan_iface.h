#ifndef VERIF_ASAN_IFACE_H_
#define VERIF_ASAN_IFACE_H_
#include <cstddef>
extern "C" {
size_t __sanitizer_get_allocated_size(const volatile void* p);
int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*));
void __asan_poison_memory_region(void const volatile* addr, size_t size);
}
#endif
