// Inputs and output buffers of exactly the size the library may touch.
#ifndef EXACT_HPP_
#define EXACT_HPP_
#include <stdlib.h>
#include <string.h>
#include <string>
#include "frozen.hpp"

// Bytes on the heap without slack, so that sanitizers see any access beyond them
struct Exact
{
  char * p;
  size_t n;
  bool cold = false;
  Exact(const void * s, size_t len)
  : n(len) {hold(s, len);}
  explicit Exact(size_t len, int fill = 0xAB)
  : p((char *)malloc(len ? len : 1)), n(len) {memset(p, fill, len ? len : 1);}
  // a terminated string
  explicit Exact(const std::string & s)
  : n(s.size() + 1) {hold(s.c_str(), n);}
  ~Exact() {if (cold) {frozen::put(p, n);} else {free(p);}}
  void hold(const void * s, size_t len)
  {
    p = frozen::on() ? frozen::get(s, len) : nullptr;
    cold = p != nullptr;
    if (!cold) {
      p = (char *)malloc(len ? len : 1);
      if (len) {memcpy(p, s, len);}
    }
  }
  Exact(const Exact &) = delete;
  Exact & operator=(const Exact &) = delete;
};

// A text for the library to read, good for the next few calls: read-only under C53
inline const char * ro(const std::string & s)
{
  if (!frozen::on()) {return s.c_str();}
  static Exact * ring[64];
  static size_t at;
  Exact *& x = ring[at++ % 64];
  delete x;
  x = new Exact(s);
  return x->p;
}
#endif  // EXACT_HPP_
