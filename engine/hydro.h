// everything the drivers include, in the drivers' order
#pragma once
#include <algorithm>
#include <array>
#include <bitset>
#include <cassert>
#include <cmath>
#include <float.h>
#include <functional>
#include <iostream>
#include <map>
#include <math.h>
#include <mpi.h>
#include <mutex>
#include <omp.h>
#include <set>
#include <stack>
#include <thread>
#include <unordered_map>
#include <vector>
#include "log.h"
#include "params.h"
#include "user.h"
#include "tree.h"
#include "default_physics.h"
#define X extern "C"
