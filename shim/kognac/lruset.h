#include <kognac/kshim.h>
