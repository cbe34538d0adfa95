#undef write
#undef read
#undef pipe
#undef close
#undef dup2
#undef execl
#undef fork
#undef waitpid
#include "drv.h"
