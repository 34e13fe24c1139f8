#include <standin.h>
