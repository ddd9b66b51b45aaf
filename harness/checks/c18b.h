// C18: chrono types in binary form
#include "chrono.h"
#include "c09.h"
