// Link-time interposition of libc allocation functions called from the library (ld --wrap).
#ifndef WRAPS_HPP_
#define WRAPS_HPP_
#include <stddef.h>
namespace wraps
{
// While `watch` is set, every direct call to malloc & co. is counted: the library was given a
// custom allocator and must not go around it.
extern int watch;
extern int direct_allocs;
extern int direct_frees;
// what memory handed out by an allocator contains (C52); -1: whatever it does
extern int fill;
struct Window
{
  Window() {watch = 1; direct_allocs = direct_frees = 0;}
  ~Window() {watch = 0;}
};
}  // namespace wraps
#endif
