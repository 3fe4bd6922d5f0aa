/* the drop-in interface of <iconv.h>, as an application written for iconv sees it */
#include <iconv.h>
iconv_t ic_open(const char *to, const char *from) { return iconv_open(to, from); }
size_t ic_conv(iconv_t cd, char **i, size_t *il, char **o, size_t *ol) { return iconv(cd, i, il, o, ol); }
int ic_close(iconv_t cd) { return iconv_close(cd); }
