// Like port.hpp, but the library takes its AArch64 code; arm_neon.h is the stand-in in harness/neon.
#include <bits/stdc++.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <climits>
#include <cassert>
#include <string>
#include <vector>
#include <stack>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>
#undef __x86_64__
#undef __i386__
#define __aarch64__ 1
