#include "src/apex.c"
#include "drv.h"
static char *dir;
static void gone(void) { if (dir) { char c[500]; snprintf(c, sizeof c, "%s/f", dir); unlink(c); rmdir(dir); } }
static const char *put(const char *p, size_t n) {
    static char name[500];
    if (!dir) { static char t[400]; strcpy(t, "./imgXXXXXX"); dir = mkdtemp(t); atexit(gone); }
    snprintf(name, sizeof name, "%s/f", dir);
    FILE *f = fopen(name, "wb");
    fwrite(p, 1, n, f);
    fclose(f);
    return name;
}
static void drv_dispatch(const char *fn) {
    FN("apex_base64_encode") { char *r = apex_base64_encode((unsigned char *)S(0), N(0)); out_str(r); free(r); return; }
    FN("apex_detect_mime_type") { out_str(apex_detect_mime_type(S(0))); return; }
    FN("apex_resolve_image_path") { char *r = apex_resolve_image_path(S(0), S(1)); out_str(r); free(r); return; }
    FN("apex_read_and_encode_image") { char *r = apex_read_and_encode_image(put(S(0), N(0))); out_str(r); free(r); return; }
    FN("apex_embed_images") {
        /* html, bytes of the file f in the base directory, enabled */
        apex_options o;
        memset(&o, 0, sizeof o);
        o.embed_images = I(2);
        put(S(1), N(1));
        char *r = apex_embed_images(S(0), &o, dir);
        out_str(r); free(r);
        return;
    }
}
