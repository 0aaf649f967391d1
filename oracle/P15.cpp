#define MODE 15
#include "roadmap.h"
