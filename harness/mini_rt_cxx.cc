// The C++ part of mini_rt.cc (apart from it because the headers declare what that file defines).
#if defined(__mips__)
#include <stdlib.h>
#include <new>
#include <string>
template std::string::pointer std::string::_M_create(std::string::size_type&, std::string::size_type);
template std::string& std::string::_M_append(const char*, std::string::size_type);
template void std::string::_M_mutate(std::string::size_type, std::string::size_type, const char*, std::string::size_type);
void* operator new(size_t n) { void* p = malloc(n); if (!p) abort(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
namespace std { void __throw_length_error(const char*) { abort(); } void __throw_logic_error(const char*) { abort(); } void __throw_bad_alloc() { abort(); } void __throw_bad_array_new_length() { abort(); } void __throw_out_of_range_fmt(const char*, ...) { abort(); } }
#endif
