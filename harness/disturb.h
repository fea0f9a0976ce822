// A disturbance of the heap.
#ifndef VERIF_DISTURB_H
#define VERIF_DISTURB_H

#include <cstdlib>
#include <utility>
#include <vector>

// Leaves holes of random sizes in the heap so that the order of addresses
// differs from one disturbance to another.
static void disturb(unsigned long seed) {
  unsigned long x = seed * 6364136223846793005UL + 1442695040888963407UL;
  auto next = [&x](unsigned long n) {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    return (x >> 11) % n;
  };
  std::vector<void*> all;
  int n = 500 + next(3000);
  for (int i = 0; i < n; ++i)
    all.push_back(malloc(16 + 16 * next(40)));
  for (int i = n - 1; i > 0; --i)
    std::swap(all[i], all[next(i + 1)]);
  for (int i = 0; i < n / 2; ++i)
    free(all[i]);
}

#endif
