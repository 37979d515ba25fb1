// Forced include: standard headers some of the library's headers use without including them
// (they rely on the include order of the ROS packages they were written for).
#ifndef SHIM_PRELUDE_HPP
#define SHIM_PRELUDE_HPP
#include <assert.h>
#include <float.h>
#include <limits.h>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <deque>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#endif
