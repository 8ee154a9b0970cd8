// stand-ins for objects whose state the code under test reads (harnesses are compiled with -fno-access-control)
#pragma once
#include "util.hpp"
// zero-filled storage for an object whose constructor is not run
template <class T> struct Raw {
  alignas(16) unsigned char b[sizeof(T)];
  Raw() { for (size_t i = 0; i < sizeof(T); i++) b[i] = 0; }
  T* operator->() { return reinterpret_cast<T*>(b); }
  T& operator*() { return *reinterpret_cast<T*>(b); }
  T* get() { return reinterpret_cast<T*>(b); }
};
