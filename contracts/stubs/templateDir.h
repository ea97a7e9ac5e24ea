#include <ct/core/templateDir.h>
