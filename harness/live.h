// counts the arrays (new[]) that are alive: what owns arrays gives them back exactly once
#pragma once
#include <cstdlib>
#include <new>
namespace live { static long arrays = 0; }
void* operator new[](std::size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live::arrays++; return p; }
void operator delete[](void* p) noexcept { if (p) { live::arrays--; std::free(p); } }
void operator delete[](void* p, std::size_t) noexcept { if (p) { live::arrays--; std::free(p); } }
