// Stand-in for a FleCSI header the drivers include; they use nothing of it.
#pragma once
#include "flecsi/data/data_client.h"
