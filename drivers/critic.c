#include "src/extensions/critic.c"
#include "drv.h"
static void drv_dispatch(const char *fn) {
    FN("apex_process_critic_markup_text") {
        char *r = apex_process_critic_markup_text(S(0), (critic_mode_t)I(1));
        out_str(r); free(r); return;
    }
}
