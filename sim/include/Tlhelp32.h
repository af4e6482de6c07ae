#include <tlhelp32.h>
