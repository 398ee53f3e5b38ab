// instantiates maths/Polyfit.h (nothing else)
#include <vector>
#include <cmath>
#include "maths/Polyfit.h"
