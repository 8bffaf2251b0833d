// Forced in front of everything: the system headers, then the compiler's architecture macros are withdrawn so that the library
// takes the code it has for processors without SIMD instructions it knows.
#include <bits/stdc++.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <climits>
#include <cassert>
#include <string>
#include <vector>
#include <stack>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>
#undef __x86_64__
#undef __i386__
#define __arm__ 1
