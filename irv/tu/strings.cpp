// Instantiations of the bounded string template at two lengths: below and above the decimal text of a 64-bit integer.
#include "TSString.h"
template class Terathon::String<7>;
template class Terathon::String<31>;
