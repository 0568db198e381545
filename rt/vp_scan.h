/* the C library redirects sscanf to another name, which would undo a plain renaming */
#include <stdio.h>
int vp_sscanf(const char *, const char *, ...);
#undef sscanf
#define sscanf vp_sscanf
