/* stands in for <Windows.h>: all that lib/localecharset/windows_getcp.h uses */
#pragma once
typedef unsigned int UINT;
#ifdef __cplusplus
extern "C"
#endif
UINT GetACP(void);
UINT GetConsoleOutputCP(void);
