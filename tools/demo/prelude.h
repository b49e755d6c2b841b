// everything the drivers include, in the drivers' order
#pragma once
#include <algorithm>
#include <array>
#include <bitset>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <float.h>
#include <functional>
#include <iostream>
#include <map>
#include <math.h>
#include <mpi.h>
#include <mutex>
#include <omp.h>
#include <set>
#include <stack>
#include <thread>
#include <unordered_map>
#include <vector>
#include "log.h"
#include "params.h"
#include "user.h"
#include "tree.h"
#include "default_physics.h"
using namespace std;
#define FAIL(...) do { printf("FAIL: " __VA_ARGS__); printf("\n"); return 1; } while(0)
static inline bool near_(double a, double b, double tol = 1e-9) { return fabs(a - b) <= tol * (fabs(a) + fabs(b) + 1e-300) || fabs(a - b) <= 1e-13; }
