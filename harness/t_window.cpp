// Oracle server: one query per line.
//   C a b    counts of the six kinds in [a, b]
//   L k a b  hexadecimal text of the list of kind k as printed
//   N n s    the n-th prime > s (n >= 1), or the first prime >= s (n = 0); "none" beyond 2^64
#include "window.hpp"
#include <iostream>
#include <sstream>
using namespace orc;
int main()
{
  std::string line;
  while (std::getline(std::cin, line))
  {
    std::istringstream in(line);
    char c;
    in >> c;
    if (c == 'N')
    {
      u64 n, s, last = 0;
      in >> n >> s;
      bool found = false, end = false;
      u64 lo = n == 0 ? s : s + 1;
      if (n && s == ~0ull) end = true;
      u64 need = n ? n : 1, width = 1000 + need * 30;
      while (!end && !found)
      {
        u64 hi = ~0ull - lo < width ? ~0ull : lo + width;
        Window w(lo, hi);
        if (w.p.size() >= need) { last = w.p[need - 1]; found = true; }
        else { need -= w.p.size(); if (hi == ~0ull) end = true; else lo = hi + 1; }
      }
      if (found) std::cout << last << "\n"; else std::cout << "none\n";
      continue;
    }
    u64 k = 0, a, b;
    if (c == 'L') in >> k;
    in >> a >> b;
    if (a > b) { std::cout << (c == 'L' ? "-" : "0 0 0 0 0 0") << "\n"; continue; }
    Window w(a, b);
    if (c == 'L')
    {
      std::string t = w.text((int) k, a, b), o;
      for (unsigned char ch : t) { o += "0123456789abcdef"[ch >> 4]; o += "0123456789abcdef"[ch & 15]; }
      std::cout << (o.empty() ? "-" : o) << "\n";
    }
    else for (int i = 0; i < 6; i++) std::cout << w.count(i, a, b) << (i < 5 ? " " : "\n");
  }
}
