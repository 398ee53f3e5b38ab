#include "maths/MedianFilter.h"
template class MedianFilter<double>;
