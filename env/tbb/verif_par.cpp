#define VERIF_PAR_DEFINE
#include <tbb/parallel_for.h>
