#define MODE 14
#include "roadmap.h"
